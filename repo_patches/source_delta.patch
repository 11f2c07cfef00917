From f8badfb5a12d322b2c30eaa3fdd5c08ec0dd01f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 01/18] fix: fit with class_weight modified the caller's
 float32 sample_weight in place

---
 wildwood/forest.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 79fe5e1..31849b0 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -304,8 +304,11 @@ class ForestBase(BaseEstimator):
         check_consistent_length(X, y)
 
         # In all cases we have a sample_weight_ vector: it contains only ones if
-        # sample_weight=None.
-        sample_weight_ = _check_sample_weight(sample_weight, X, dtype=np.float32)
+        # sample_weight=None. This is a copy since it is multiplied inplace by the class
+        # weights below, and the user's array must not be modified.
+        sample_weight_ = _check_sample_weight(
+            sample_weight, X, dtype=np.float32, copy=True
+        )
 
         is_classifier = isinstance(self, ForestClassifier)
         n_estimators = self.n_estimators
-- 
2.43.0


From 49b1196b5b636e002e216f5786ed9fcedde100f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 02/18] fix: a fit that fails or is interrupted left a forest
 mixing old and new training

---
 wildwood/forest.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 31849b0..5817bda 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -298,6 +298,19 @@ class ForestBase(BaseEstimator):
         self : object
             The fitted forest.
         """
+        state = self.__dict__.copy()
+        try:
+            return self._fit(
+                X, y, sample_weight, categorical_features, randomized_depth
+            )
+        except BaseException:
+            # A fit that failed or was interrupted must not leave a forest that mixes
+            # the previous and the new training: put everything back as it was
+            self.__dict__ = state
+            raise
+
+    def _fit(self, X, y, sample_weight, categorical_features, randomized_depth):
+        """Does the actual work of `fit`"""
         if categorical_features is not None:
             self.categorical_features = categorical_features
 
-- 
2.43.0


From 78959fe2e935602dfa6b1bf2c05f6739739af8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 03/18] fix: fit with two classes overwrote the multiclass
 parameter, which broke later fits

---
 wildwood/forest.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 5817bda..eaba850 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -246,7 +246,7 @@ class ForestBase(BaseEstimator):
             np.iinfo(np.uint32).max, size=n_estimators
         )
         if hasattr(self, "multiclass"):
-            if self.multiclass == "ovr":
+            if self.multiclass_ == "ovr":
                 # TODO: an option random_state_ovr
                 # In the "ovr" case, we want the random_state to be the same across the
                 # trees used in the one-versus all strategy
@@ -329,7 +329,7 @@ class ForestBase(BaseEstimator):
         if is_classifier:
             y = self._encode_y(y)
             class_weight = self.class_weight
-            multiclass = self.multiclass
+            multiclass = self.multiclass_
             n_classes = self._n_classes_
 
             if self.aggregation and self.dirichlet == 0.0:
@@ -444,7 +444,7 @@ class ForestBase(BaseEstimator):
             ]
 
         # Parallel loop: use threading since all the numba code releases the GIL
-        ovr = is_classifier and self.multiclass == "ovr"
+        ovr = is_classifier and self.multiclass_ == "ovr"
         if self.verbose:
             with parallel_config(prefer="threads"):
                 trees = Parallel(
@@ -1146,6 +1146,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         self.n_trees_ = None
         self.n_classes_per_tree_ = None
         self._multiclass = None
+        self.multiclass_ = None
         self.dirichlet = dirichlet
         self.class_weight = class_weight
         self.multiclass = multiclass
@@ -1173,6 +1174,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         label_encoder = LabelBinarizer() if multiclass == "ovr" else LabelEncoder()
         pre_encoded_y = label_encoder.fit_transform(y)
         self._classes_ = label_encoder.classes_
+        self.multiclass_ = multiclass
         n_classes_ = self._classes_.shape[0]
         self._n_classes_ = n_classes_
         if multiclass == "ovr":
@@ -1183,7 +1185,9 @@ class ForestClassifier(ForestBase, ClassifierMixin):
                         'multiclass="multinomial" instead of "ovr"'
                     )
                 # We switch back to "multinomial" encoding
-                self.multiclass = "multinomial"
+                # Keep the parameter as given by the user: the next call to fit might
+                # be on data with more than two classes
+                self.multiclass_ = "multinomial"
                 # And we need to flatten the array in this case (since LabelBinarizer
                 # returns a (n_samples, 2) array in this case)
                 encoded_y = pre_encoded_y.ravel().astype(np.float32)
@@ -1264,7 +1268,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         all_proba = np.zeros((features_bitarray.n_samples, self.n_classes_))
         n_estimators = self.n_estimators
 
-        ovr = self.multiclass == "ovr"
+        ovr = self.multiclass_ == "ovr"
 
         with parallel_config(require="sharedmem"):
             Parallel(
@@ -1327,7 +1331,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
             (
                 n_estimators,
                 n_samples,
-                2 if n_classes > 2 and self.multiclass == "ovr" else n_classes,
+                2 if n_classes > 2 and self.multiclass_ == "ovr" else n_classes,
             )
         )
 
-- 
2.43.0


From c4fa7959083329a9da5380ba282a14ff6256c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 04/18] fix: fit and apply failed when a process-based joblib
 backend is the ambient one

---
 wildwood/forest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index eaba850..5ffbde7 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -446,7 +446,7 @@ class ForestBase(BaseEstimator):
         # Parallel loop: use threading since all the numba code releases the GIL
         ovr = is_classifier and self.multiclass_ == "ovr"
         if self.verbose:
-            with parallel_config(prefer="threads"):
+            with parallel_config(require="sharedmem"):
                 trees = Parallel(
                     n_jobs=self.n_jobs,
                     # **_joblib_parallel_args(prefer="threads"),
@@ -463,7 +463,7 @@ class ForestBase(BaseEstimator):
                     for tree_idx, tree in enumerate(trees)
                 )
         else:
-            with parallel_config(prefer="threads"):
+            with parallel_config(require="sharedmem"):
                 trees = Parallel(
                     n_jobs=self.n_jobs,
                     # **_joblib_parallel_args(prefer="threads"),
@@ -504,7 +504,7 @@ class ForestBase(BaseEstimator):
         features_bitarray, n_jobs, lock = self._predict_helper(X)
         n_samples = features_bitarray.n_samples
         out = np.empty((len(self.trees), n_samples), dtype=np.uintp)
-        with parallel_config(prefer="threads"):
+        with parallel_config(require="sharedmem"):
             Parallel(
                 n_jobs=self.n_jobs,
                 verbose=self.verbose,
-- 
2.43.0


From ad34f350d9e3cb5bfbe4f7950affe124d21d4447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 05/18] fix: random_state did not seed the subsampling used for
 binning

---
 wildwood/forest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 5ffbde7..6eeeacf 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -383,6 +383,7 @@ class ForestBase(BaseEstimator):
             is_categorical=is_categorical,
             cat_min_categories=self.cat_min_categories,
             handle_unknown=self.handle_unknown,
+            random_state=self.random_state,
         )
 
         encoder.fit(X)
-- 
2.43.0


From f5919475dcd6964ba76c716c430ce58f7a754aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:06 +0000
Subject: [PATCH 06/18] fix: an interrupted change of step or dirichlet could
 never be completed

---
 wildwood/forest.py |  8 ++++----
 wildwood/tree.py   | 10 ++++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 6eeeacf..c1da967 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -705,10 +705,10 @@ class ForestBase(BaseEstimator):
         elif val <= 0:
             raise ValueError("step must be positive")
         else:
-            self._step = val
             if self._fitted:
                 for tree in self.trees:
                     tree.step = val
+            self._step = val
 
     @property
     def aggregation(self):
@@ -1391,11 +1391,11 @@ class ForestClassifier(ForestBase, ClassifierMixin):
             if val < 0.0:
                 raise ValueError("dirichlet must be positive")
             else:
-                recompute = hasattr(self, "_dirichlet") and self._dirichlet != val
-                self._dirichlet = val
-                if self._fitted and recompute:
+                if self._fitted:
+                    # The trees recompute their predictions only if required
                     for tree in self.trees:
                         tree.dirichlet = val
+                self._dirichlet = val
 
     @property
     def classes_(self):
diff --git a/wildwood/tree.py b/wildwood/tree.py
index 4550e65..ac16ecd 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -154,7 +154,9 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
     def step(self, val):
         # We skip the checks and assume they are done by the forest
         if self._step != val:
-            self._step = val
+            # No step is recorded until the tree weights are up to date, so that a new
+            # assignment recomputes them if this one is interrupted
+            self._step = None
             if self.is_classifier:
                 if hasattr(self, "_tree_classifier_context"):
                     self._tree_classifier_context.step = val
@@ -173,6 +175,7 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
                             self._tree_regressor.node_count,
                             val,
                         )
+            self._step = val
 
     def lighten(self):
         if hasattr(self, "_train_indices"):
@@ -324,7 +327,9 @@ class TreeClassifier(ClassifierMixin, TreeBase):
     def dirichlet(self, val):
         # We skip the checks and assume they are done by the forest
         if val != self.dirichlet:
-            self._dirichlet = val
+            # No dirichlet is recorded until the predictions are up to date, so that a
+            # new assignment recomputes them if this one is interrupted
+            self._dirichlet = None
             # If the attribute _tree_classifier_context is there, then the tree has
             # already been trained and its predictions needs to be recomputed
             if hasattr(self, "_tree_classifier_context"):
@@ -332,6 +337,7 @@ class TreeClassifier(ClassifierMixin, TreeBase):
                 recompute_node_predictions(
                     self._tree_classifier, self._tree_classifier_context, val
                 )
+            self._dirichlet = val
 
 
 class TreeRegressor(TreeBase, RegressorMixin):
-- 
2.43.0


From 26c81df6b41ed839b716ca6d9fd9bb1790d3fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:06 +0000
Subject: [PATCH 07/18] fix: a lightened forest could not be unpickled

---
 wildwood/tree.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index ac16ecd..a6c21d6 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -483,13 +483,17 @@ def serialize(obj):
 
 
 def unserialize(key, val):
-    if key == "_tree_classifier":
+    if val is None:
+        # An unfitted tree, or the context of a lightened tree
+        return None
+    elif key == "_tree_classifier":
         n_features = val["n_features"]
         n_classes = val["n_classes"]
         random_state = val["random_state"]
         node_count = val["node_count"]
-        capacity = val["capacity"]
-        bin_partitions_capacity = val["bin_partitions_capacity"]
+        # The arrays of a lightened tree are smaller than its capacity
+        capacity = val["nodes"].shape[0]
+        bin_partitions_capacity = val["bin_partitions"].shape[0]
         bin_partitions_end = val["bin_partitions_end"]
         tree = _TreeClassifier(
             n_features,
@@ -501,15 +505,16 @@ def unserialize(key, val):
             bin_partitions_end,
         )
         tree.nodes[:] = val["nodes"]
-        tree.y_pred[:] = val["y_pred"]
+        tree.y_pred[:] = val["y_pred"][:capacity]
         tree.bin_partitions[:] = val["bin_partitions"]
         return tree
     elif key == "_tree_regressor":
         n_features = val["n_features"]
         random_state = val["random_state"]
         node_count = val["node_count"]
-        capacity = val["capacity"]
-        bin_partitions_capacity = val["bin_partitions_capacity"]
+        # The arrays of a lightened tree are smaller than its capacity
+        capacity = val["nodes"].shape[0]
+        bin_partitions_capacity = val["bin_partitions"].shape[0]
         bin_partitions_end = val["bin_partitions_end"]
         tree = _TreeRegressor(
             n_features,
@@ -520,7 +525,7 @@ def unserialize(key, val):
             bin_partitions_end,
         )
         tree.nodes[:] = val["nodes"]
-        tree.y_pred[:] = val["y_pred"]
+        tree.y_pred[:] = val["y_pred"][:capacity]
         tree.bin_partitions[:] = val["bin_partitions"]
         return tree
     elif key == "_tree_classifier_context":
-- 
2.43.0


From 6c0555032c0a2f149c281a04e49c661d24aee4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:06 +0000
Subject: [PATCH 08/18] fix: changing step of a lightened forest failed
 half-way

---
 wildwood/forest.py |  7 +++++++
 wildwood/tree.py   | 13 ++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index c1da967..c750051 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1392,6 +1392,13 @@ class ForestClassifier(ForestBase, ClassifierMixin):
                 raise ValueError("dirichlet must be positive")
             else:
                 if self._fitted:
+                    if any(
+                        tree.dirichlet != val and tree._tree_classifier_context is None
+                        for tree in self.trees
+                    ):
+                        raise ValueError(
+                            "You cannot change dirichlet after calling lighten"
+                        )
                     # The trees recompute their predictions only if required
                     for tree in self.trees:
                         tree.dirichlet = val
diff --git a/wildwood/tree.py b/wildwood/tree.py
index a6c21d6..8ae4a1d 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -158,18 +158,21 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
             # assignment recomputes them if this one is interrupted
             self._step = None
             if self.is_classifier:
-                if hasattr(self, "_tree_classifier_context"):
+                # A lightened tree has no context anymore
+                if self._tree_classifier_context is not None:
                     self._tree_classifier_context.step = val
-                    if self._tree_classifier_context.aggregation:
+                if self._tree_classifier is not None:
+                    if self.aggregation:
                         compute_tree_weights(
                             self._tree_classifier.nodes,
                             self._tree_classifier.node_count,
                             val,
                         )
             else:
-                if hasattr(self, "_tree_regressor_context"):
+                if self._tree_regressor_context is not None:
                     self._tree_regressor_context.step = val
-                    if self._tree_regressor_context.aggregation:
+                if self._tree_regressor is not None:
+                    if self.aggregation:
                         compute_tree_weights(
                             self._tree_regressor.nodes,
                             self._tree_regressor.node_count,
@@ -332,7 +335,7 @@ class TreeClassifier(ClassifierMixin, TreeBase):
             self._dirichlet = None
             # If the attribute _tree_classifier_context is there, then the tree has
             # already been trained and its predictions needs to be recomputed
-            if hasattr(self, "_tree_classifier_context"):
+            if self._tree_classifier_context is not None:
                 self._tree_classifier_context.dirichlet = val
                 recompute_node_predictions(
                     self._tree_classifier, self._tree_classifier_context, val
-- 
2.43.0


From 171f3f8b3c697ea255ed217e374035048cc27b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:07 +0000
Subject: [PATCH 09/18] fix: an interrupted or failed download left a broken
 file in the dataset cache

---
 wildwood/datasets/_adult.py      | 51 +++++++++++++++++---------------
 wildwood/datasets/_amazon.py     | 24 ++++++++-------
 wildwood/datasets/_bank.py       |  8 +++--
 wildwood/datasets/_car.py        | 26 +++++++++-------
 wildwood/datasets/_default_cb.py | 24 ++++++++-------
 wildwood/datasets/_epsilon.py    | 14 +++++----
 wildwood/datasets/_higgs.py      |  8 +++--
 wildwood/datasets/_internet.py   | 22 ++++++++------
 wildwood/datasets/_kick.py       | 32 +++++++++++---------
 9 files changed, 122 insertions(+), 87 deletions(-)

diff --git a/wildwood/datasets/_adult.py b/wildwood/datasets/_adult.py
index 316e59a..2d18050 100644
--- a/wildwood/datasets/_adult.py
+++ b/wildwood/datasets/_adult.py
@@ -1,6 +1,7 @@
 import os
 from os.path import exists, join
 import logging
+from tempfile import TemporaryDirectory
 from time import time
 
 import numpy as np
@@ -53,30 +54,32 @@ def _fetch_adult(download_if_missing=True):
 
     if download_if_missing and not exists(data_path):
         _mkdirp(data_dir)
-        logger.info("Downloading %s" % ARCHIVE_TRAIN.url)
-        _fetch_remote(ARCHIVE_TRAIN, dirname=data_dir)
-        logger.info("Downloading %s" % ARCHIVE_TEST.url)
-        _fetch_remote(ARCHIVE_TEST, dirname=data_dir)
-
-        logger.debug("Converting as a single dataframe with the correct schema")
-        archive_path_train = join(data_dir, ARCHIVE_TRAIN.filename)
-        # We use skiprows = [0] since there is a weird first line containing :
-        #   |1x3 Cross validator
-        df_train = pd.read_csv(archive_path_train, header=None, sep=",", skiprows=[0])
-        df_train.columns = columns
-        archive_path_test = join(data_dir, ARCHIVE_TEST.filename)
-        # We use skiprows = [0] since there is a weird first line containing :
-        #   |1x3 Cross validator
-        df_test = pd.read_csv(archive_path_test, header=None, sep=",", skiprows=[0])
-        df_test.columns = columns
-        df_test = df_test.replace(" >50K.", " >50K")
-        df_test = df_test.replace(" <=50K.", " <=50K")
-
-        df = pd.concat([df_train, df_test], axis="index")
-        df.to_csv(data_path, compression="gzip", index=False)
-        # Remove temporary files
-        os.remove(archive_path_train)
-        os.remove(archive_path_test)
+        # Work in a private directory and move the data to its final place only when it
+        # is complete: we might be interrupted, and others might be doing the same
+        with TemporaryDirectory(dir=data_dir) as tmp_dir:
+            logger.info("Downloading %s" % ARCHIVE_TRAIN.url)
+            _fetch_remote(ARCHIVE_TRAIN, dirname=tmp_dir)
+            logger.info("Downloading %s" % ARCHIVE_TEST.url)
+            _fetch_remote(ARCHIVE_TEST, dirname=tmp_dir)
+
+            logger.debug("Converting as a single dataframe with the correct schema")
+            archive_path_train = join(tmp_dir, ARCHIVE_TRAIN.filename)
+            # We use skiprows = [0] since there is a weird first line containing :
+            #   |1x3 Cross validator
+            df_train = pd.read_csv(archive_path_train, header=None, sep=",", skiprows=[0])
+            df_train.columns = columns
+            archive_path_test = join(tmp_dir, ARCHIVE_TEST.filename)
+            # We use skiprows = [0] since there is a weird first line containing :
+            #   |1x3 Cross validator
+            df_test = pd.read_csv(archive_path_test, header=None, sep=",", skiprows=[0])
+            df_test.columns = columns
+            df_test = df_test.replace(" >50K.", " >50K")
+            df_test = df_test.replace(" <=50K.", " <=50K")
+
+            df = pd.concat([df_train, df_test], axis="index")
+            tmp_path = join(tmp_dir, os.path.basename(data_path))
+            df.to_csv(tmp_path, compression="gzip", index=False)
+            os.replace(tmp_path, data_path)
 
 
 def load_adult(download_if_missing=True, raw=False, verbose=False):
diff --git a/wildwood/datasets/_amazon.py b/wildwood/datasets/_amazon.py
index 758d880..dce199f 100644
--- a/wildwood/datasets/_amazon.py
+++ b/wildwood/datasets/_amazon.py
@@ -1,6 +1,7 @@
 import os
 from os.path import exists, join
 import logging
+from tempfile import TemporaryDirectory
 
 import numpy as np
 import pandas as pd
@@ -26,16 +27,19 @@ def _fetch_amazon(download_if_missing=True):
 
     if download_if_missing and not exists(data_path):
         _mkdirp(data_dir)
-        logger.info("Downloading %s" % ARCHIVE.url)
-        _fetch_remote(ARCHIVE, dirname=data_dir)
-        logger.debug("Converting as a single dataframe with the correct schema")
-        filepath = join(data_dir, ARCHIVE.filename)
-
-        df = pd.read_csv(filepath)
-
-        df.to_csv(data_path, compression="gzip", index=False)
-        # Remove temporary files
-        os.remove(filepath)
+        # Work in a private directory and move the data to its final place only when it
+        # is complete: we might be interrupted, and others might be doing the same
+        with TemporaryDirectory(dir=data_dir) as tmp_dir:
+            logger.info("Downloading %s" % ARCHIVE.url)
+            _fetch_remote(ARCHIVE, dirname=tmp_dir)
+            logger.debug("Converting as a single dataframe with the correct schema")
+            filepath = join(tmp_dir, ARCHIVE.filename)
+
+            df = pd.read_csv(filepath)
+
+            tmp_path = join(tmp_dir, os.path.basename(data_path))
+            df.to_csv(tmp_path, compression="gzip", index=False)
+            os.replace(tmp_path, data_path)
 
 
 def load_amazon(download_if_missing=True, raw=False, verbose=False):
diff --git a/wildwood/datasets/_bank.py b/wildwood/datasets/_bank.py
index 2cf326e..3845523 100644
--- a/wildwood/datasets/_bank.py
+++ b/wildwood/datasets/_bank.py
@@ -1,6 +1,7 @@
 import os
 from os.path import exists, join
 import logging
+from tempfile import TemporaryDirectory
 
 import numpy as np
 import pandas as pd
@@ -28,8 +29,11 @@ def _fetch_bank(download_if_missing=True):
     if download_if_missing and not exists(data_path):
 
         _mkdirp(data_dir)
-        logger.info("Downloading %s" % ARCHIVE.url)
-        _fetch_remote(ARCHIVE, dirname=data_dir)
+        # Work in a private directory and move the data to its final place only when it
+        # is complete: we might be interrupted, and others might be doing the same
+        with TemporaryDirectory(dir=data_dir) as tmp_dir:
+            logger.info("Downloading %s" % ARCHIVE.url)
+            os.replace(_fetch_remote(ARCHIVE, dirname=tmp_dir), data_path)
 
 
 def load_bank(download_if_missing=True, raw=False, verbose=False):
diff --git a/wildwood/datasets/_car.py b/wildwood/datasets/_car.py
index e53e60d..d241135 100644
--- a/wildwood/datasets/_car.py
+++ b/wildwood/datasets/_car.py
@@ -1,6 +1,7 @@
 import os
 from os.path import exists, join
 import logging
+from tempfile import TemporaryDirectory
 
 import numpy as np
 import pandas as pd
@@ -28,17 +29,20 @@ def _fetch_car(download_if_missing=True):
 
     if download_if_missing and not exists(data_path):
         _mkdirp(data_dir)
-        logger.info("Downloading %s" % ARCHIVE.url)
-        _fetch_remote(ARCHIVE, dirname=data_dir)
-        logger.debug("Converting as a single dataframe with the correct schema")
-        filepath = join(data_dir, ARCHIVE.filename)
-
-        df = pd.read_csv(filepath, header=None, sep=",")
-        df.columns = columns
-
-        df.to_csv(data_path, compression="gzip", index=False)
-        # Remove temporary files
-        os.remove(filepath)
+        # Work in a private directory and move the data to its final place only when it
+        # is complete: we might be interrupted, and others might be doing the same
+        with TemporaryDirectory(dir=data_dir) as tmp_dir:
+            logger.info("Downloading %s" % ARCHIVE.url)
+            _fetch_remote(ARCHIVE, dirname=tmp_dir)
+            logger.debug("Converting as a single dataframe with the correct schema")
+            filepath = join(tmp_dir, ARCHIVE.filename)
+
+            df = pd.read_csv(filepath, header=None, sep=",")
+            df.columns = columns
+
+            tmp_path = join(tmp_dir, os.path.basename(data_path))
+            df.to_csv(tmp_path, compression="gzip", index=False)
+            os.replace(tmp_path, data_path)
 
 
 def load_car(download_if_missing=True, raw=False, verbose=False):
diff --git a/wildwood/datasets/_default_cb.py b/wildwood/datasets/_default_cb.py
index dba7bfb..dc674e0 100644
--- a/wildwood/datasets/_default_cb.py
+++ b/wildwood/datasets/_default_cb.py
@@ -1,6 +1,7 @@
 import os
 from os.path import exists, join
 import logging
+from tempfile import TemporaryDirectory
 
 import numpy as np
 import pandas as pd
@@ -26,16 +27,19 @@ def _fetch_default_cb(download_if_missing=True):
 
     if download_if_missing and not exists(data_path):
         _mkdirp(data_dir)
-        logger.info("Downloading %s" % ARCHIVE.url)
-        _fetch_remote(ARCHIVE, dirname=data_dir)
-        logger.debug("Converting as a single dataframe with the correct schema")
-        filepath = join(data_dir, ARCHIVE.filename)
-
-        df = pd.read_excel(filepath, skiprows=[0])
-
-        df.to_csv(data_path, compression="gzip", index=False)
-        # Remove temporary files
-        os.remove(filepath)
+        # Work in a private directory and move the data to its final place only when it
+        # is complete: we might be interrupted, and others might be doing the same
+        with TemporaryDirectory(dir=data_dir) as tmp_dir:
+            logger.info("Downloading %s" % ARCHIVE.url)
+            _fetch_remote(ARCHIVE, dirname=tmp_dir)
+            logger.debug("Converting as a single dataframe with the correct schema")
+            filepath = join(tmp_dir, ARCHIVE.filename)
+
+            df = pd.read_excel(filepath, skiprows=[0])
+
+            tmp_path = join(tmp_dir, os.path.basename(data_path))
+            df.to_csv(tmp_path, compression="gzip", index=False)
+            os.replace(tmp_path, data_path)
 
 
 def load_default_cb(download_if_missing=True, raw=False, verbose=False):
diff --git a/wildwood/datasets/_epsilon.py b/wildwood/datasets/_epsilon.py
index 981e614..947eb97 100644
--- a/wildwood/datasets/_epsilon.py
+++ b/wildwood/datasets/_epsilon.py
@@ -1,6 +1,7 @@
 import os
 from os.path import exists, join
 import logging
+from tempfile import TemporaryDirectory
 
 import numpy as np
 import pandas as pd
@@ -33,12 +34,15 @@ def _fetch_epsilon(download_if_missing=True):
     data_path1 = join(data_dir, "epsilon_normalized.bz2")
     data_path2 = join(data_dir, "epsilon_normalized.t.bz2")
 
-    if download_if_missing and not exists(data_path1):
+    for archive, data_path in (ARCHIVE_TRAIN, data_path1), (ARCHIVE_TEST, data_path2):
+        if not download_if_missing or exists(data_path):
+            continue
         _mkdirp(data_dir)
-        logger.info("Downloading %s" % ARCHIVE_TRAIN.url)
-        _fetch_remote(ARCHIVE_TRAIN, dirname=data_dir)
-        logger.info("Downloading %s" % ARCHIVE_TEST.url)
-        _fetch_remote(ARCHIVE_TEST, dirname=data_dir)
+        # Work in a private directory and move the data to its final place only when it
+        # is complete: we might be interrupted, and others might be doing the same
+        with TemporaryDirectory(dir=data_dir) as tmp_dir:
+            logger.info("Downloading %s" % archive.url)
+            os.replace(_fetch_remote(archive, dirname=tmp_dir), data_path)
 
 
 def load_epsilon(download_if_missing=True, raw=False, verbose=False):
diff --git a/wildwood/datasets/_higgs.py b/wildwood/datasets/_higgs.py
index 6486f49..9bd5a34 100644
--- a/wildwood/datasets/_higgs.py
+++ b/wildwood/datasets/_higgs.py
@@ -1,6 +1,7 @@
 import errno
 from gzip import GzipFile
 import logging
+from tempfile import TemporaryDirectory
 import os
 from os.path import dirname, exists, join
 
@@ -46,8 +47,11 @@ def _fetch_higgs(download_if_missing=True):
 
     if download_if_missing and not exists(data_path):
         _mkdirp(data_dir)
-        logger.info("Downloading %s" % ARCHIVE.url)
-        _fetch_remote(ARCHIVE, dirname=data_dir)
+        # Work in a private directory and move the data to its final place only when it
+        # is complete: we might be interrupted, and others might be doing the same
+        with TemporaryDirectory(dir=data_dir) as tmp_dir:
+            logger.info("Downloading %s" % ARCHIVE.url)
+            os.replace(_fetch_remote(ARCHIVE, dirname=tmp_dir), data_path)
 
 
 def load_higgs(download_if_missing=True, raw=False, verbose=False):
diff --git a/wildwood/datasets/_internet.py b/wildwood/datasets/_internet.py
index 4b1aeff..01ea9db 100644
--- a/wildwood/datasets/_internet.py
+++ b/wildwood/datasets/_internet.py
@@ -1,6 +1,7 @@
 import os
 from os.path import exists, join
 import logging
+from tempfile import TemporaryDirectory
 
 import numpy as np
 import pandas as pd
@@ -28,17 +29,20 @@ def _fetch_internet(download_if_missing=True):
     if download_if_missing and not exists(data_path):
 
         _mkdirp(data_dir)
-        logger.info("Downloading %s" % ARCHIVE.url)
-        _fetch_remote(ARCHIVE, dirname=data_dir)
+        # Work in a private directory and move the data to its final place only when it
+        # is complete: we might be interrupted, and others might be doing the same
+        with TemporaryDirectory(dir=data_dir) as tmp_dir:
+            logger.info("Downloading %s" % ARCHIVE.url)
+            _fetch_remote(ARCHIVE, dirname=tmp_dir)
 
-        logger.debug("Converting as a single dataframe with the correct schema")
-        file = join(data_dir, ARCHIVE.filename)
+            logger.debug("Converting as a single dataframe with the correct schema")
+            file = join(tmp_dir, ARCHIVE.filename)
 
-        df = pd.read_csv(file)
-        df = df.fillna("?")
-        df.to_csv(data_path, compression="gzip", index=False)
-        # Remove temporary files
-        os.remove(file)
+            df = pd.read_csv(file)
+            df = df.fillna("?")
+            tmp_path = join(tmp_dir, os.path.basename(data_path))
+            df.to_csv(tmp_path, compression="gzip", index=False)
+            os.replace(tmp_path, data_path)
 
 
 def load_internet(download_if_missing=True, raw=False, verbose=False):
diff --git a/wildwood/datasets/_kick.py b/wildwood/datasets/_kick.py
index 9375cc8..35ed99d 100644
--- a/wildwood/datasets/_kick.py
+++ b/wildwood/datasets/_kick.py
@@ -1,6 +1,7 @@
 import os
 from os.path import exists, join
 import logging
+from tempfile import TemporaryDirectory
 
 import numpy as np
 import pandas as pd
@@ -61,20 +62,23 @@ def _fetch_kick(download_if_missing=True):
 
     if download_if_missing and not exists(data_path):
         _mkdirp(data_dir)
-        logger.info("Downloading %s" % ARCHIVE.url)
-        _fetch_remote(ARCHIVE, dirname=data_dir)
-        logger.debug("Converting as a single dataframe with the correct schema")
-        filepath = join(data_dir, ARCHIVE.filename)
-
-        numerical_columns = [a for a, b in dtype.items() if b != "category"]
-
-        df = pd.read_csv(filepath)
-        for nc in numerical_columns:
-            df[nc] = df[nc].replace("?", np.nan)
-
-        df.to_csv(data_path, compression="gzip", index=False)
-        # Remove temporary files
-        os.remove(filepath)
+        # Work in a private directory and move the data to its final place only when it
+        # is complete: we might be interrupted, and others might be doing the same
+        with TemporaryDirectory(dir=data_dir) as tmp_dir:
+            logger.info("Downloading %s" % ARCHIVE.url)
+            _fetch_remote(ARCHIVE, dirname=tmp_dir)
+            logger.debug("Converting as a single dataframe with the correct schema")
+            filepath = join(tmp_dir, ARCHIVE.filename)
+
+            numerical_columns = [a for a, b in dtype.items() if b != "category"]
+
+            df = pd.read_csv(filepath)
+            for nc in numerical_columns:
+                df[nc] = df[nc].replace("?", np.nan)
+
+            tmp_path = join(tmp_dir, os.path.basename(data_path))
+            df.to_csv(tmp_path, compression="gzip", index=False)
+            os.replace(tmp_path, data_path)
 
 
 def load_kick(download_if_missing=True, raw=False, verbose=False):
-- 
2.43.0


From e02e8b15822e0ebce86f35567cffb5ca3c2fcb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:07 +0000
Subject: [PATCH 10/18] fix: concurrent loads of the bank dataset removed each
 other's extracted file

---
 wildwood/datasets/_bank.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wildwood/datasets/_bank.py b/wildwood/datasets/_bank.py
index 3845523..baf4d7b 100644
--- a/wildwood/datasets/_bank.py
+++ b/wildwood/datasets/_bank.py
@@ -62,10 +62,12 @@ def load_bank(download_if_missing=True, raw=False, verbose=False):
         "previous": np.int64,
         "poutcome": "category",
     }
+    # Extract in a private directory, since others might be loading the dataset as well
+    tmp_dir = TemporaryDirectory(dir=data_dir)
     zip_ref = zipfile.ZipFile(data_path, "r")
-    zip_ref.extract("bank-full.csv", path=data_dir)
+    zip_ref.extract("bank-full.csv", path=tmp_dir.name)
     zip_ref.close()
-    unzipped_data_path = join(data_dir, "bank-full.csv")
+    unzipped_data_path = join(tmp_dir.name, "bank-full.csv")
     label_column = "y"
 
     if raw:
@@ -76,7 +78,7 @@ def load_bank(download_if_missing=True, raw=False, verbose=False):
             verbose=verbose,
             sep=";",
         )
-        os.remove(unzipped_data_path)
+        tmp_dir.cleanup()
         return X, y
     else:
         dataset = Dataset.from_dtype(
@@ -86,5 +88,5 @@ def load_bank(download_if_missing=True, raw=False, verbose=False):
             dtype=dtype,
         )
         dataset_ = dataset.load_from_csv(unzipped_data_path, sep=";", dtype=dtype)
-        os.remove(unzipped_data_path)
+        tmp_dir.cleanup()
         return dataset_
-- 
2.43.0


From 5de57accdec749cd99d985b2b6c683e587303838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:07 +0000
Subject: [PATCH 11/18] fix: get_data_home failed when another process created
 the directory first

---
 wildwood/datasets/_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wildwood/datasets/_utils.py b/wildwood/datasets/_utils.py
index 9c0b732..99689ef 100644
--- a/wildwood/datasets/_utils.py
+++ b/wildwood/datasets/_utils.py
@@ -33,8 +33,7 @@ def get_data_home(data_home=None) -> str:
     if data_home is None:
         data_home = environ.get("WILDWOOD_DATA", join("~", "wildwood_data"))
     data_home = expanduser(data_home)
-    if not exists(data_home):
-        makedirs(data_home)
+    makedirs(data_home, exist_ok=True)
     return data_home
 
 
-- 
2.43.0


From dd0a3f308b1b7f823d34d330c9951846964edec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:22 +0000
Subject: [PATCH 12/18] fix: fit with randomized_depth ignored random_state and
 drew from the global generator

---
 wildwood/forest.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index c750051..2542a1d 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -394,6 +394,9 @@ class ForestBase(BaseEstimator):
         features_bitarray = encoder.transform(X)
         self._encoder = encoder
 
+        # Used only if randomized_depth=True
+        depth_rng = check_random_state(self.random_state)
+
         if is_classifier:
             # We are training a classifier
             trees = [
@@ -405,7 +408,7 @@ class ForestBase(BaseEstimator):
                     step=self.step,
                     aggregation=self.aggregation,
                     dirichlet=self.dirichlet,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_ if not randomized_depth else depth_rng.randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
@@ -429,7 +432,7 @@ class ForestBase(BaseEstimator):
                     loss=self.loss,
                     step=self.step,
                     aggregation=self.aggregation,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_ if not randomized_depth else depth_rng.randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
-- 
2.43.0


From 49c837b8994692653e6658541388b78176bb1550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:01 +0000
Subject: [PATCH 13/18] fix: fit without max_depth failed in a process that had
 fitted with one

numba types a Python int once per type, so that after a fit with an explicit
max_depth the sentinel np.iinfo(np.uintp).max could not be converted and every
later fit with max_depth=None raised OverflowError. Use a sentinel that fits in
a signed word.
---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 2542a1d..febf49a 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -743,7 +743,7 @@ class ForestBase(BaseEstimator):
 
     @staticmethod
     def _get_max_depth_(max_depth):
-        return np.iinfo(np.uintp).max if max_depth is None else max_depth
+        return np.iinfo(np.intp).max if max_depth is None else max_depth
 
     @property
     def min_samples_split(self):
-- 
2.43.0


From ffbd90ac13cef4a6bed2bf27dafdb827217c5e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:47 +0000
Subject: [PATCH 14/18] fix: Dataset.extract forgets the categorical mask of an
 earlier extract

After an extract with one_hot_encode=False, an extract with one_hot_encode=True
kept categorical_features_, whose length does not match the columns.
---
 wildwood/datasets/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wildwood/datasets/dataset.py b/wildwood/datasets/dataset.py
index 2c54163..02c9727 100644
--- a/wildwood/datasets/dataset.py
+++ b/wildwood/datasets/dataset.py
@@ -326,6 +326,8 @@ class Dataset:
             #
             categorical_features[-self.n_features_categorical_ :] = True
             self.categorical_features_ = categorical_features
+        else:
+            self.categorical_features_ = None
 
         stratify = None if self.task == "regression" else df[self.label_column]
 
-- 
2.43.0


From 9d08b5be2b264cceeb356056f0d8bf887e36dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:40 +0000
Subject: [PATCH 15/18] fix: make_regression draws from a generator of its own

Seeding and then drawing from the global generator gave other data when another
thread draws (or calls make_regression) at the same time.
---
 wildwood/datasets/signals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wildwood/datasets/signals.py b/wildwood/datasets/signals.py
index f639d83..c3fd770 100644
--- a/wildwood/datasets/signals.py
+++ b/wildwood/datasets/signals.py
@@ -8,6 +8,7 @@ import numpy as np
 from numpy import sin, sign, pi, abs, sqrt
 from numba import vectorize
 from numba import float32, float64
+from sklearn.utils import check_random_state
 
 
 __all__ = ["get_signal", "make_regression"]
@@ -168,11 +169,10 @@ def make_regression(n_samples=5000, signal="heavisine", noise=0.03, random_state
         Tuple containing (X, y) of shape (n_samples, 1) and (n_samples) corresponding
         to the input features and the output labels.
     """
-    if random_state is not None:
-        np.random.seed(random_state)
-    X = np.random.uniform(size=n_samples)
+    rng = check_random_state(random_state)
+    X = rng.uniform(size=n_samples)
     X = np.sort(X)
     y = get_signal(X, signal)
     X = X.reshape(n_samples, 1)
-    y += noise * np.random.randn(n_samples)
+    y += noise * rng.randn(n_samples)
     return X, y
-- 
2.43.0


From 8929fa7b3a094232e38353b7f7d9ad24ad6d5cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:10 +0000
Subject: [PATCH 16/18] fix: ForestRegressor.predict_trees returns the
 predictions of each tree

---
 wildwood/forest.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index febf49a..054eb96 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1723,17 +1723,8 @@ class ForestRegressor(ForestBase, RegressorMixin):
         output : ndarray of shape (n_estimators, n_samples)
            The predicted target regression values by each tree for the input samples.
         """
-        check_is_fitted(self)
-        # Check data
-        X = self._validate_X_predict(X)
-        # TODO: we can also avoid data binning for predictions...
-        X_binned = self._bin_data(X, is_training_data=False)
-        n_samples, n_features = X.shape
-        n_estimators = len(self.trees)
-        n_jobs, _, _ = _partition_estimators(self.n_estimators, self.n_jobs)
-        probas = np.empty((n_estimators, n_samples, n_features))
-
-        lock = threading.Lock()
+        features_bitarray, n_jobs, lock = self._predict_helper(X)
+        predictions = np.empty((len(self.trees), features_bitarray.n_samples))
         with parallel_config(require="sharedmem"):
             Parallel(
                 n_jobs=n_jobs,
@@ -1741,11 +1732,11 @@ class ForestRegressor(ForestBase, RegressorMixin):
                 # **_joblib_parallel_args(require="sharedmem"),
             )(
                 delayed(_get_tree_prediction)(
-                    e.predict_proba, X_binned, probas, lock, tree_idx
+                    e.predict, features_bitarray, predictions, lock, tree_idx
                 )
                 for tree_idx, e in enumerate(self.trees)
             )
-        return probas
+        return predictions
 
     @property
     def criterion(self):
-- 
2.43.0


From 6d4cea444130003b336f01dc3d4824df52ec09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:45 +0000
Subject: [PATCH 17/18] fix: transform lost columns of a dataframe with
 duplicated column names

---
 wildwood/preprocessing/encoder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 5f41b93..437ee2a 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -373,8 +373,9 @@ class Encoder(TransformerMixin, BaseEstimator):
                 # Once again, max_value is the number of bins minus one
                 max_values[col_idx] = col_n_bins - 1
 
-                # Save the eventually transformed column (if categorical)
-                X_dict[col_name] = col
+                # Save the eventually transformed column (if categorical). Columns are
+                # identified by their index, since names might be duplicated
+                X_dict[col_idx] = col
         else:
             # First, we need to know if some columns from X have unknown categories,
             # since this might increase by one the number of bins required. Note that
@@ -435,7 +436,7 @@ class Encoder(TransformerMixin, BaseEstimator):
 
         # And to loop again over the columns to fill it
         if is_dataframe:
-            for col_idx, (col_name, col) in enumerate(X_dict.items()):
+            for col_idx, col in X_dict.items():
                 if is_categorical_[col_idx]:
                     col_categories_at_fit = categories[col_idx]
                     # Use the same categories as the ones used in fit and replace
-- 
2.43.0


From e28d2afdd7f8d22daa2e5767619cf15771e8c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:31 +0000
Subject: [PATCH 18/18] fix: a fit of an encoder that fails or is interrupted
 left it mixing old and new training

---
 wildwood/preprocessing/encoder.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 437ee2a..ed8c556 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -164,6 +164,17 @@ class Encoder(TransformerMixin, BaseEstimator):
         self : Encoder
             The current Encoder instance
         """
+        state = self.__dict__.copy()
+        try:
+            return self._fit(X)
+        except BaseException:
+            # A fit that failed or was interrupted must not leave an encoder that mixes
+            # the previous and the new training: put everything back as it was
+            self.__dict__ = state
+            raise
+
+    def _fit(self, X):
+        """Does the actual work of `fit`"""
         # TODO: a faster fit transform where we avoid doing the same thing twice
         # TODO: test for constant columns
         is_dataframe = check_X(X, is_categorical=self.is_categorical)
-- 
2.43.0


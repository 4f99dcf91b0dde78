From 6fe0c4ee193c6980846d2ba72de6d9ce070a92b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:24 +0000
Subject: [PATCH 01/69] fix: SamplingJob passes the scaled test set to the
 oversampler's transformation

---
 smote_variants/evaluation/_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index fbe1539..065b7a9 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -160,7 +160,7 @@ class SamplingJob(TimeoutJobBase):
         with warnings.catch_warnings(record=True) as warning:
             try:
                 X_samp, y_samp = oversampler_obj.sample(X_train, y_train)
-                X_test = oversampler_obj.preprocessing_transform(folding["X_test"])
+                X_test = oversampler_obj.preprocessing_transform(X_test)
                 oversampling = {
                     **oversampling,
                     "X_train": X_samp,
-- 
2.43.0


From 15f446830fec94b768ab0235e311e2bb90db437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:24 +0000
Subject: [PATCH 02/69] fix: each fold carries its own descriptor

---
 smote_variants/evaluation/_folding.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 644ff9c..2ce1d2b 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -111,15 +111,17 @@ class Folding:
         data = self.dataset["data"]
         target = self.dataset["target"]
 
-        properties = self.properties
         n_splits = self.validator_params["n_splits"]
-        properties["n_repeats"] = self.validator_params["n_repeats"]
-        properties["n_splits"] = n_splits
 
         for idx, (train, test) in enumerate(validator.split(data, target, target)):
-            properties["split_idx"] = idx
-            properties["repeat_idx"] = idx // n_splits
-            properties["fold_idx"] = idx - (idx // n_splits) * n_splits
+            properties = {
+                **self.properties,
+                "n_repeats": self.validator_params["n_repeats"],
+                "n_splits": n_splits,
+                "split_idx": idx,
+                "repeat_idx": idx // n_splits,
+                "fold_idx": idx - (idx // n_splits) * n_splits,
+            }
 
             folding = {
                 "X_train": data[train],
-- 
2.43.0


From 5c835da144c6cbd093e07334b57456a28c0a3d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:24 +0000
Subject: [PATCH 03/69] fix: Folding indexes the class counts by position
 instead of label value

---
 smote_variants/evaluation/_folding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 2ce1d2b..574b9cf 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -53,9 +53,9 @@ class Folding:
         min_label = int(np.max(labels[counts == np.min(counts)]))
         maj_label = int(labels[labels != min_label][0])
 
-        n_min = int(counts[min_label])
-        n_maj = int(counts[maj_label])
-        imb_ratio = float(counts[maj_label] / counts[min_label])
+        n_min = int(counts[labels == min_label][0])
+        n_maj = int(counts[labels == maj_label][0])
+        imb_ratio = float(n_maj / n_min)
 
         self.properties = {
             "db_n": len(dataset["data"]),
-- 
2.43.0


From 302cc4c2d24ce68ee57be56ba653974bac062e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:11 +0000
Subject: [PATCH 04/69] fix: cache files are written atomically, an interrupted
 write leaves no partial file

---
 smote_variants/base/_base.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index 5f93a8a..4f32401 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -244,24 +244,30 @@ def dump_dict(obj, filename, serialization=None, array_to_list_map=None):
     if serialization is None:
         serialization = filename.split(".")[-1]
 
+    # the file is written under a temporary name (not matching the patterns of
+    # the cache files) first, so that the file with the final name is complete
+    tmp_filename = os.path.join(
+        os.path.dirname(filename), f".{os.path.basename(filename)}.{os.getpid()}"
+    )
+
     if serialization == "json":
         for key in array_to_list_map:
             obj[key] = obj[key].astype(float).tolist()
-        if os.path.exists(filename):
-            os.remove(filename)
 
-        with open(filename, "wt", encoding="UTF-8") as file:
+        with open(tmp_filename, "wt", encoding="UTF-8") as file:
             json_string = json.dumps(obj)
             file.write(json_string)
             file.flush()
             os.fsync(file)
             file.close()
+        os.replace(tmp_filename, filename)
     elif serialization == "pickle":
-        with open(filename, "wb") as file:
+        with open(tmp_filename, "wb") as file:
             pickle.dump(obj, file)
             file.flush()
             os.fsync(file)
             file.close()
+        os.replace(tmp_filename, filename)
     else:
         raise ValueError(f"serialization {serialization} is not supported")
 
-- 
2.43.0


From 0f4eaaa84e723f2c574957c6d547e0bc70f25b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:11 +0000
Subject: [PATCH 05/69] fix: damaged pickle files are recognized as damaged

---
 smote_variants/base/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index 4f32401..6d0c039 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -289,7 +289,9 @@ def check_if_damaged(filename, serialization="json"):
         load_dict(filename, serialization)
     except FileNotFoundError:
         damaged = True
-    except JSONDecodeError:
+    except (JSONDecodeError, UnicodeDecodeError):
+        damaged = True
+    except (pickle.UnpicklingError, EOFError):
         damaged = True
 
     return damaged
-- 
2.43.0


From 9a2831655763c74076d5396aae45a7a41afc58b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:11 +0000
Subject: [PATCH 06/69] fix: an incomplete set of cached folds is regenerated

---
 smote_variants/evaluation/_folding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 574b9cf..d6331d5 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -93,7 +93,11 @@ class Folding:
         elif self.serialization == "pickle":
             path = os.path.join(self.folding_dir_path, "fold_*.pickle")
 
-        if len(glob.glob(path)) == 0:
+        n_folds = (
+            self.validator_params["n_repeats"] * self.validator_params["n_splits"]
+        )
+
+        if len(glob.glob(path)) < n_folds:
             self.cache_foldings()
 
         return sorted(glob.glob(path))
-- 
2.43.0


From d50a9ff62db62bd260fd1139226cc7150818611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:11 +0000
Subject: [PATCH 07/69] fix: results of any size are received from the
 timed-out processes

---
 smote_variants/evaluation/_parallelization.py | 37 ++++++++++---------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index 8fef4d7..0b7e698 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -4,6 +4,7 @@ This module implements the process based parallelization with timeout.
 
 import threading
 import multiprocessing
+import multiprocessing.connection
 from queue import Empty
 
 __all__ = [
@@ -134,29 +135,29 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
 
     process_start_lock.release()
 
-    if timeout is not None and timeout > 0:
-        process.join(timeout)
-    else:
-        process.join()
+    if timeout is None or timeout <= 0:
+        timeout = None
 
-    # if the process finished normally, the result is written into
-    # the results output argument
-    if not process.is_alive():
-        results[idx] = queue_get_default(queue, job)
+    # waiting for the result or the termination of the process, the queue needs
+    # to be emptied before joining the process, as a process does not terminate
+    # until the data it has put in the queue is flushed to the pipe
+    ready = multiprocessing.connection.wait(
+        [queue._reader, process.sentinel], timeout  # pylint: disable=protected-access
+    )
 
-        return
+    # if the result is available or the process finished, the result is
+    # written into the results output argument
+    if ready:
+        results[idx] = queue_get_default(queue, job)
+        process.join(timeout)
 
-    # remove anything from the queue to prevent deadlock
-    try:
-        queue_lock.acquire()
-        results[idx] = queue.get(block=False)
-    except Empty:
-        pass
+    # if the process is still running, the process is killed
+    if process.is_alive():
+        process.kill()
 
-    # if the process is still running, the process is killed and
     # the timeout function is executed for potential clean-up
-    process.kill()
-    results[idx] = job.timeout()
+    if not ready:
+        results[idx] = job.timeout()
 
 
 def wait_for_lock(lock):
-- 
2.43.0


From dda8ae6b8dd7aec7b6bbc5b767a975ba39490358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:11 +0000
Subject: [PATCH 08/69] fix: summaries keep the results of oversamplers without
 simplex sampling

---
 smote_variants/evaluation/_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_processing.py b/smote_variants/evaluation/_processing.py
index f38a219..99aa61e 100644
--- a/smote_variants/evaluation/_processing.py
+++ b/smote_variants/evaluation/_processing.py
@@ -160,7 +160,8 @@ def create_summary(data, scores=None, columns_to_serialize=None):
                 "classifier_module",
                 "classifier",
                 "deterministic",
-            ]
+            ],
+            dropna=False,
         )
         .apply(lambda x: _serialize_data(x, columns_to_serialize))
         .reset_index(drop=False)
-- 
2.43.0


From 1cf5126859eee78dc5ae4aede47e848024ce483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 09/69] fix: multiclass oversampling equalizes the class sizes
 and accepts ties

---
 .../multiclassoversampling/_multiclassoversampling.py  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/smote_variants/multiclassoversampling/_multiclassoversampling.py b/smote_variants/multiclassoversampling/_multiclassoversampling.py
index cc41a20..3bfb963 100755
--- a/smote_variants/multiclassoversampling/_multiclassoversampling.py
+++ b/smote_variants/multiclassoversampling/_multiclassoversampling.py
@@ -28,7 +28,12 @@ def proportion_1_vs_many(stats, labels, maj_label, class_idx):
         float: the proportion
     """
     to_gen = stats[maj_label] - stats[labels[class_idx]]
-    to_gen_to_all = stats[maj_label] - stats[labels[class_idx]]
+
+    if to_gen == 0:
+        return 0.0
+
+    # the difference of the number of all other samples and the class size
+    to_gen_to_all = sum(stats.values()) - 2 * stats[labels[class_idx]]
 
     return to_gen / to_gen_to_all
 
@@ -50,6 +55,9 @@ def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
     n_class_i = stats[labels[class_idx]]
     num_to_generate = n_majority - n_class_i
 
+    if num_to_generate == 0:
+        return 0.0
+
     num_to_gen_to_all = class_idx * n_majority - n_class_i
 
     return num_to_generate / num_to_gen_to_all
-- 
2.43.0


From 810224e614fde085ac9bf69ef2c9118b95401bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 10/69] fix: ADASYN respects zero proportion

---
 smote_variants/oversampling/_adasyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_adasyn.py b/smote_variants/oversampling/_adasyn.py
index 3314425..a431f18 100755
--- a/smote_variants/oversampling/_adasyn.py
+++ b/smote_variants/oversampling/_adasyn.py
@@ -91,7 +91,7 @@ class ADASYN(OverSamplingSimplex):
 
         self.n_neighbors = n_neighbors
         self.d_th = d_th
-        self.beta = proportion or beta
+        self.beta = coalesce(proportion, beta)
         self.proportion = self.beta
         self.nn_params = nn_params
         self.n_jobs = n_jobs
-- 
2.43.0


From 1025849edd8be602a075094575b0b71fe8a8c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 11/69] fix: E_SMOTE uses its own random state

---
 smote_variants/oversampling/_e_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_e_smote.py b/smote_variants/oversampling/_e_smote.py
index 68e8f0f..b5e5f0a 100755
--- a/smote_variants/oversampling/_e_smote.py
+++ b/smote_variants/oversampling/_e_smote.py
@@ -209,7 +209,7 @@ class E_SMOTE(OverSampling):
 
         # creating initial mask
         mask = np.repeat([False], X.shape[1])
-        mask[np.random.choice(np.arange(mask.shape[0]), 1)] = True
+        mask[self.random_state.choice(np.arange(mask.shape[0]), 1)] = True
 
         # generating initial population
         population = [[0, mask.copy()] for _ in range(n_population)]
-- 
2.43.0


From bda29e5c22ec6c9f8b7119eac9c69740750252f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 12/69] fix: E_SMOTE does not transform new data if the
 sampling was declined

---
 smote_variants/oversampling/_e_smote.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/smote_variants/oversampling/_e_smote.py b/smote_variants/oversampling/_e_smote.py
index b5e5f0a..bab69a4 100755
--- a/smote_variants/oversampling/_e_smote.py
+++ b/smote_variants/oversampling/_e_smote.py
@@ -257,6 +257,20 @@ class E_SMOTE(OverSampling):
 
         return smote.sample(X[:, self.mask], y)
 
+    def sample(self, X, y):
+        """
+        Sampling interface function, resets the learnt transformation.
+
+        Args:
+            X (np.array): features
+            y (np.array): labels
+
+        Returns:
+            np.array, np.array: the oversampled dataset
+        """
+        self.mask = None
+        return OverSampling.sample(self, X, y)
+
     def preprocessing_transform(self, X):
         """
         Transform new data by the learnt transformation
@@ -267,6 +281,8 @@ class E_SMOTE(OverSampling):
         Returns:
             np.array: transformed data
         """
+        if self.mask is None:
+            return X
         return X[:, self.mask]
 
     def get_params(self, deep=False):
-- 
2.43.0


From 03dfa7280aca42a18cd58523b1d21615752887c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 13/69] fix: ISOMAP_Hybrid does not transform new data if the
 sampling was declined

---
 smote_variants/oversampling/_isomap_hybrid.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index 0e23cec..a9bf255 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -108,6 +108,7 @@ class ISOMAP_Hybrid(OverSampling):
         self.ss_params = coalesce_dict(ss_params, ss_params_default)
         self.smote_n_neighbors = smote_n_neighbors
         self.n_jobs = n_jobs
+        self.transformed = False
 
         self.isomap = Isomap(
             n_neighbors=n_neighbors, n_components=n_components, n_jobs=n_jobs
@@ -145,6 +146,7 @@ class ISOMAP_Hybrid(OverSampling):
             if suppress_external_warnings():
                 warnings.simplefilter("ignore")
             X_trans = self.isomap.fit_transform(X, y)  # pylint: disable=invalid-name
+        self.transformed = True
 
         nn_params = {**self.nn_params}
         nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
@@ -170,6 +172,20 @@ class ISOMAP_Hybrid(OverSampling):
 
         return X_final, y_final
 
+    def sample(self, X, y):
+        """
+        Sampling interface function, resets the learnt transformation.
+
+        Args:
+            X (np.array): features
+            y (np.array): labels
+
+        Returns:
+            np.array, np.array: the oversampled dataset
+        """
+        self.transformed = False
+        return OverSampling.sample(self, X, y)
+
     def preprocessing_transform(self, X):
         """
         Transforms new data by the trained isomap
@@ -180,6 +196,8 @@ class ISOMAP_Hybrid(OverSampling):
         Returns:
             np.array: the transformed data
         """
+        if not self.transformed:
+            return X
         return self.isomap.transform(X)
 
     def get_params(self, deep=False):
-- 
2.43.0


From edea027072b0ef86055c2eac7eeca3a9e07d9332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 14/69] fix: ISOMAP_Hybrid does not suppose the labels 0 and 1

---
 smote_variants/oversampling/_isomap_hybrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index a9bf255..02e9df4 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -165,7 +165,10 @@ class ISOMAP_Hybrid(OverSampling):
         ncr = NeighborhoodCleaningRule(n_jobs=self.n_jobs, nn_params=nn_params)
         X_final, y_final = ncr.remove_noise(X_sm, y_sm)
 
-        if np.sum(y_final) <= 2 or np.sum(y_final == 0) <= 2:
+        if (
+            np.sum(y_final == self.min_label) <= 2
+            or np.sum(y_final == self.maj_label) <= 2
+        ):
             return self.return_copies(
                 X_sm, y_sm, "too many samples removed returning isomapped dataset"
             )
-- 
2.43.0


From 7f1c479090d162a5009045edff148646e4f462d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 15/69] fix: KernelADASYN keeps the original samples when the
 dimensions are reduced

---
 smote_variants/oversampling/_kerneladasyn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_kerneladasyn.py b/smote_variants/oversampling/_kerneladasyn.py
index 986b411..012e8c7 100755
--- a/smote_variants/oversampling/_kerneladasyn.py
+++ b/smote_variants/oversampling/_kerneladasyn.py
@@ -226,7 +226,10 @@ class KernelADASYN(OverSampling):
 
             X_samp, y_samp = kernela.sample(X_trans, y)
 
-            return pca.inverse_transform(X_samp), y_samp
+            return (
+                np.vstack([X, pca.inverse_transform(X_samp[len(X) :])]),
+                y_samp,
+            )
 
         samples = self.mcmc(X_min, r_score, covariance, n_to_sample)
 
-- 
2.43.0


From 53417db203711ec1a0dcfc349ed31a7f019f9702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 16/69] fix: DEAGO returns all its parameters

---
 smote_variants/oversampling/_deago.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/oversampling/_deago.py b/smote_variants/oversampling/_deago.py
index a88272a..e669449 100755
--- a/smote_variants/oversampling/_deago.py
+++ b/smote_variants/oversampling/_deago.py
@@ -311,6 +311,7 @@ class DEAGO(OverSampling):
             "e": self.encoder_params["e"],
             "h": self.encoder_params["h"],
             "sigma": self.encoder_params["sigma"],
+            "nn_params": self.nn_params,
             "ss_params": self.ss_params,
             "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
-- 
2.43.0


From 38e26d4e07ac891ecd2f7737bd913b29cf873990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 17/69] fix: ADG passes the actual labels to the matrix
 evaluation

---
 smote_variants/oversampling/_adg.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_adg.py b/smote_variants/oversampling/_adg.py
index 808d9df..9636c12 100755
--- a/smote_variants/oversampling/_adg.py
+++ b/smote_variants/oversampling/_adg.py
@@ -688,7 +688,13 @@ class ADG(OverSampling):
         # M_plus is not updated as it is not used
         # the partial_results dict acts like a dataclass to reduce the clutter
         # of passing around dozens of arrays
-        partial_results, X, y = evaluate_matrices(X, y, kernel=kernel_function)
+        partial_results, X, y = evaluate_matrices(
+            X,
+            y,
+            kernel=kernel_function,
+            maj_label=self.maj_label,
+            min_label=self.min_label,
+        )
 
         # The computing of N matrix is factored into two steps, computing
         # N_plus and N_minus this is used to improve efficiency
-- 
2.43.0


From c84742b0e59c676ede710355cef9de18b3ffc112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 18/69] fix: NEATER assigns the actual labels to the new
 samples

---
 smote_variants/oversampling/_neater.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_neater.py b/smote_variants/oversampling/_neater.py
index 29ff7c5..2c9d73a 100755
--- a/smote_variants/oversampling/_neater.py
+++ b/smote_variants/oversampling/_neater.py
@@ -395,7 +395,9 @@ class NEATER(OverSampling):
             )
 
         # determining final labels
-        y_all[len(X) :] = np.argmax(prob[len(X) :], axis=1)
+        y_all[len(X) :] = np.where(
+            np.argmax(prob[len(X) :], axis=1) == 1, self.min_label, self.maj_label
+        )
 
         return X_all, y_all
 
-- 
2.43.0


From 73c4c0a26431961436e162247c9e4aaadf83025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 19/69] fix: SL_graph_SMOTE counts the minority neighbors
 instead of summing labels

---
 smote_variants/oversampling/_sl_graph_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sl_graph_smote.py b/smote_variants/oversampling/_sl_graph_smote.py
index ab6cda3..725f092 100755
--- a/smote_variants/oversampling/_sl_graph_smote.py
+++ b/smote_variants/oversampling/_sl_graph_smote.py
@@ -139,7 +139,7 @@ class SL_graph_SMOTE(OverSampling):
         indices = nnmt.kneighbors(X[y == self.min_label], return_distance=False)
 
         # Computing safe level values
-        safe_level_values = np.sum(y[indices], axis=1)
+        safe_level_values = np.sum(y[indices] == self.min_label, axis=1)
 
         # Computing skewness
         with warnings.catch_warnings():
-- 
2.43.0


From d14bca4af1957f2613d7ac225ac2a5a8cd8c00f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 20/69] fix: SMMO does not suppose the labels 0 and 1

---
 smote_variants/oversampling/_smmo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_smmo.py b/smote_variants/oversampling/_smmo.py
index 1815db8..c228097 100755
--- a/smote_variants/oversampling/_smmo.py
+++ b/smote_variants/oversampling/_smmo.py
@@ -190,7 +190,11 @@ class SMMO(OverSamplingSimplex):
                 predictions.append(ens.fit(X, y).predict(X))
 
         # constructing ensemble prediction
-        pred = np.where(np.mean(np.vstack(predictions), axis=0) > 0.5, 1, 0)
+        pred = np.where(
+            np.mean(np.vstack(predictions) == self.min_label, axis=0) > 0.5,
+            self.min_label,
+            self.maj_label,
+        )
 
         # create mask of minority samples to sample
         mask_to_sample = np.where(np.logical_and(pred != y, y == self.min_label))[0]
-- 
2.43.0


From 277c14c70b97fbe5de82f490f4f0ca87fbd71250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 21/69] fix: SSO regresses the minority membership instead of
 the label values

---
 smote_variants/oversampling/_sso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sso.py b/smote_variants/oversampling/_sso.py
index f084eda..ad26087 100755
--- a/smote_variants/oversampling/_sso.py
+++ b/smote_variants/oversampling/_sso.py
@@ -291,7 +291,7 @@ class SSO(OverSampling):
 
         # applying linear regression to find the best weights
         linreg = LinearRegression(n_jobs=self.n_jobs)
-        linreg.fit(phi, y)
+        linreg.fit(phi, (y == self.min_label).astype(float))
         f = linreg.predict(
             phi[np.where(y == self.min_label)[0]]
         )  # pylint: disable=invalid-name
-- 
2.43.0


From 9dd71793a064189868f6d0d2ae7a6c034566c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 22/69] fix: cov_min metric tensor is computed from the
 minority class

---
 smote_variants/base/_metrictensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 9fe6b85..8488199 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -611,7 +611,9 @@ class MetricTensor:
         elif self.metric_learning_method == "cov":
             self.metric_tensor = np.linalg.inv(fix_pd_matrix(np.cov(X.T)))
         elif self.metric_learning_method == "cov_min":
-            cov = np.cov(X[y == 1].T)
+            labels, counts = np.unique(y, return_counts=True)
+            min_label = np.max(labels[counts == np.min(counts)])
+            cov = np.cov(X[y == min_label].T)
             self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov))
         elif self.metric_learning_method == "MI_weighted":
             mutuali = estimate_mutual_information(X, y)
-- 
2.43.0


From 08381d4071dd888d8be06cfadcc2fd36500fb00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 23/69] fix: SMOTEWB passes its random state to the fallback
 SMOTE

---
 smote_variants/oversampling/_smotewb.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index b4a6760..cac99b4 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -263,7 +263,11 @@ class SMOTEWB(OverSampling):
 
         # all data points are noise
         if len(X_not_noise) == 0:
-            smote = SMOTE(proportion=self.proportion, nn_params=self.nn_params)
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                random_state=self._random_state_init,
+            )
             return smote.sample(X, y)
 
         n_neighbors = min([len(X_not_noise), k_max + 1])
@@ -305,7 +309,11 @@ class SMOTEWB(OverSampling):
         # prevent errors (missing from the original) no good or lonely
         # samples => give chance to the others
         if n_good_min + n_lonely_min == 0:
-            smote = SMOTE(proportion=self.proportion, nn_params=self.nn_params)
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                random_state=self._random_state_init,
+            )
             return smote.sample(X, y)
 
         n_to_sample_per_sample = math.ceil(n_to_sample / (n_good_min + n_lonely_min))
-- 
2.43.0


From 00b47790d0a7abbc7df56024f17c85deb7c88f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 24/69] fix: MOT2LD does not change its parameters during
 sampling

---
 smote_variants/oversampling/_mot2ld.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_mot2ld.py b/smote_variants/oversampling/_mot2ld.py
index c9ebd24..b2b21d2 100755
--- a/smote_variants/oversampling/_mot2ld.py
+++ b/smote_variants/oversampling/_mot2ld.py
@@ -463,14 +463,13 @@ class MOT2LD(OverSamplingSimplex):
             "%s: Starting TSNE n: %d d: %d", self.__class__.__name__, len(X), len(X[0])
         )
 
-        if self.n_components > X.shape[1]:
-            self.n_components = min(self.n_components, X.shape[1])
+        n_components = min(self.n_components, X.shape[1])
 
         with warnings.catch_warnings():
             warnings.filterwarnings("ignore")
             # do the stochastic embedding
             X_tsne = TSNE(  # pylint: disable=invalid-name
-                self.n_components,
+                n_components,
                 random_state=self._random_state_init,
                 perplexity=np.min([10, X.shape[0] - 1]),
                 n_iter_without_progress=100,
-- 
2.43.0


From 4b90686b1395b972c848e494b98ab00aad393c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 25/69] fix: undersampling identifies the classes by their
 sizes

---
 .../_oversampling_driven_undersampling.py         | 15 +++++++++++----
 .../undersampling/_random_undersampling.py        | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index 9e63aa2..43145c4 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -56,12 +56,14 @@ class OversamplingDrivenUndersampling(UnderSampling):
         Returns:
             np.array, np.array: the undersampled feature vectors and class labels
         """
-        n_maj, n_min = np.bincount(y)
+        self.class_label_statistics(y)
+        n_maj = self.class_stats[self.maj_label]
+        n_min = self.class_stats[self.min_label]
 
         X_samp, _ = self.oversampler.sample(X, y)
         X_new = X_samp[X.shape[0]:]
-        X_min = X[y == 1]
-        X_maj = X[y == 0]
+        X_min = X[y == self.min_label]
+        X_maj = X[y == self.maj_label]
 
         dists = X_new - X_maj[:, None]
 
@@ -80,6 +82,11 @@ class OversamplingDrivenUndersampling(UnderSampling):
             X_maj = X_maj[sorting][:n_min]
 
         X_res = np.vstack([X_maj, X_min]).copy()  # pylint: disable=invalid-name
-        y_res = np.hstack([np.repeat(0, X_maj.shape[0]), np.repeat(1, X_min.shape[0])])
+        y_res = np.hstack(
+            [
+                np.repeat(self.maj_label, X_maj.shape[0]),
+                np.repeat(self.min_label, X_min.shape[0]),
+            ]
+        )
 
         return X_res, y_res
diff --git a/smote_variants/undersampling/_random_undersampling.py b/smote_variants/undersampling/_random_undersampling.py
index 07ed2d4..6ef5351 100644
--- a/smote_variants/undersampling/_random_undersampling.py
+++ b/smote_variants/undersampling/_random_undersampling.py
@@ -41,13 +41,20 @@ class RandomUndersampling(UnderSampling):
         Returns:
             np.array, np.array: the undersampled feature vectors and class labels
         """
-        n_maj, n_min = np.bincount(y)
+        self.class_label_statistics(y)
+        n_maj = self.class_stats[self.maj_label]
+        n_min = self.class_stats[self.min_label]
         #mask = self.random_state.choice(np.arange(n_maj), n_min, p=np.repeat(1.0/n_maj, n_maj), replace=False)
         mask = self.random_state.choice(np.arange(n_maj), n_min, replace=False)
-        X_maj = X[y == 0][mask]
-        X_min = X[y == 1]
+        X_maj = X[y == self.maj_label][mask]
+        X_min = X[y == self.min_label]
 
         X_res = np.vstack([X_maj, X_min]).copy()  # pylint: disable=invalid-name
-        y_res = np.hstack([np.repeat(0, X_maj.shape[0]), np.repeat(1, X_min.shape[0])])
+        y_res = np.hstack(
+            [
+                np.repeat(self.maj_label, X_maj.shape[0]),
+                np.repeat(self.min_label, X_min.shape[0]),
+            ]
+        )
 
         return X_res, y_res
\ No newline at end of file
-- 
2.43.0


From bf65c857e7e79ed886698d1b214857782d875280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 26/69] fix: p_top20 is computed from the samples of highest
 probability

---
 smote_variants/base/_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrics.py b/smote_variants/base/_metrics.py
index 7c95d70..e855201 100644
--- a/smote_variants/base/_metrics.py
+++ b/smote_variants/base/_metrics.py
@@ -217,7 +217,8 @@ def calculate_prob_scores(test_labels, probabilities, min_label=1):
     results = {}
 
     thres = max(int(0.2 * len(test_labels)), 1)
-    results["p_top20"] = float(np.sum(test_labels[:thres] == min_label) / thres)
+    top = np.argsort(-probabilities, kind="stable")[:thres]
+    results["p_top20"] = float(np.sum(test_labels[top] == min_label) / thres)
     results["brier"] = float(np.mean((probabilities - test_labels) ** 2))
     results["log_loss"] = float(log_loss(test_labels, probabilities))
     results["auc"] = float(roc_auc_score(test_labels, probabilities))
-- 
2.43.0


From 723eb5437c38ec7ce90b0c3631268ee99bb1dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 27/69] fix: ClosestNeighborsInClasses returns consistent
 vectors and labels

---
 smote_variants/base/_metrictensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 8488199..310cf9b 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -375,7 +375,10 @@ class ClosestNeighborsInClasses:
 
         X_final = np.vstack([X_maj[~label_maj], X_min[~label_min]])
         y_final = np.hstack(
-            [np.repeat(0, int(np.sum(label_maj))), np.repeat(1, int(np.sum(label_min)))]
+            [
+                np.repeat(0, int(np.sum(~label_maj))),
+                np.repeat(1, int(np.sum(~label_min))),
+            ]
         )
 
         return X_final, y_final
-- 
2.43.0


From ee84cbf852a9bb258ae79ff4666c1d606a2684c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 28/69] fix: radius_neighbors falls back to the radius of the
 object

---
 smote_variants/base/_metrictensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 310cf9b..1055721 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -824,6 +824,9 @@ class NearestNeighborsWithMetricTensor:
                 X, radius, return_distance, sort_results
             )
 
+        if radius is None:
+            radius = self.radius
+
         distm = pairwise_distances_mahalanobis(
             X, Y=self.X_fitted, tensor=self.metric_tensor
         )
-- 
2.43.0


From 9b235b190d31b3c497106a0b01a5457fb7c0fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 29/69] fix: MLPClassifierWrapper returns max_iter among its
 parameters

---
 smote_variants/classifiers/_mlpclassifierwrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/classifiers/_mlpclassifierwrapper.py b/smote_variants/classifiers/_mlpclassifierwrapper.py
index 6344b20..9762b58 100755
--- a/smote_variants/classifiers/_mlpclassifierwrapper.py
+++ b/smote_variants/classifiers/_mlpclassifierwrapper.py
@@ -104,6 +104,7 @@ class MLPClassifierWrapper:
         """
         _ = deep
         return {
+            "max_iter": self.max_iter,
             "activation": self.activation,
             "hidden_layer_fraction": self.hidden_layer_fraction,
             "alpha": self.alpha,
-- 
2.43.0


From eb6f532b89cb00f5949523c0ffdcad2438dead7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 30/69] fix: OversamplingClassifier applies the transformation
 of the oversampler

---
 smote_variants/classifiers/_oversamplingclassifier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smote_variants/classifiers/_oversamplingclassifier.py b/smote_variants/classifiers/_oversamplingclassifier.py
index 94b2d4c..1891bca 100755
--- a/smote_variants/classifiers/_oversamplingclassifier.py
+++ b/smote_variants/classifiers/_oversamplingclassifier.py
@@ -57,7 +57,9 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
             X (np.ndarray): feature vectors
         """
 
-        return self.classifier_obj.predict(X)
+        return self.classifier_obj.predict(
+            self.oversampler_obj.preprocessing_transform(X)
+        )
 
     def predict_proba(self, X):
         """
@@ -67,7 +69,9 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
             X (np.ndarray): feature vectors
         """
 
-        return self.classifier_obj.predict_proba(X)
+        return self.classifier_obj.predict_proba(
+            self.oversampler_obj.preprocessing_transform(X)
+        )
 
     def get_params(self, deep=True):
         """
-- 
2.43.0


From fde0bd25dfd74e76b79d6a0a4d99a149270b619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:29 +0000
Subject: [PATCH 31/69] fix: ADG keeps the original samples in their original
 order

---
 smote_variants/oversampling/_adg.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/smote_variants/oversampling/_adg.py b/smote_variants/oversampling/_adg.py
index 9636c12..e35e7bb 100755
--- a/smote_variants/oversampling/_adg.py
+++ b/smote_variants/oversampling/_adg.py
@@ -395,7 +395,11 @@ class ADG(OverSampling):
 
         X_samp, y_samp = adg.sample(x_trans, y)
 
-        return pca.inverse_transform(X_samp), y_samp
+        # the original samples are kept, only the new ones are mapped back
+        return (
+            np.vstack([X, pca.inverse_transform(X_samp[len(X) :])]),
+            np.hstack([y, y_samp[len(y) :]]),
+        )
 
     def update_partial_results(self, *, partial_results):
         """
@@ -688,6 +692,7 @@ class ADG(OverSampling):
         # M_plus is not updated as it is not used
         # the partial_results dict acts like a dataclass to reduce the clutter
         # of passing around dozens of arrays
+        X_orig, y_orig = X, y  # pylint: disable=invalid-name
         partial_results, X, y = evaluate_matrices(
             X,
             y,
@@ -753,18 +758,21 @@ class ADG(OverSampling):
         except ADGSingularMatrixException:
             n_components = int(X.shape[1] / 2)
             if n_components > 0:
-                return self.sample_with_n_components(X, y, n_components)
+                return self.sample_with_n_components(X_orig, y_orig, n_components)
 
-            return self.return_copies(X, y, "cannot reduce dimensionality any more")
+            return self.return_copies(
+                X_orig, y_orig, "cannot reduce dimensionality any more"
+            )
         except ValueError as exc:
             _logger.info(
                 "%s: stopping the iteration because of %s",
                 self.__class__.__name__,
                 str(exc),
             )
-            return X.copy(), y.copy()
 
-        return X.copy(), y.copy()
+        # the original samples are kept in their original order
+        n_orig = len(X_orig)
+        return np.vstack([X_orig, X[n_orig:]]), np.hstack([y_orig, y[n_orig:]])
 
     def get_params(self, deep=False):
         """
-- 
2.43.0


From 50b3f6b03716e483de03543be0b61d8850fcef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:29 +0000
Subject: [PATCH 32/69] fix: SMOTE_IPF does not suppose the labels 0 and 1

---
 smote_variants/oversampling/_smote_ipf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_smote_ipf.py b/smote_variants/oversampling/_smote_ipf.py
index ff092ec..755be25 100755
--- a/smote_variants/oversampling/_smote_ipf.py
+++ b/smote_variants/oversampling/_smote_ipf.py
@@ -168,6 +168,8 @@ class SMOTE_IPF(OverSampling):
 
         n_folds = min([self.params["n_folds"], np.sum(y == self.min_label)])
 
+        labels = np.sort([self.min_label, self.maj_label])
+
         condition = 0
         while condition < self.params["k"]:
             # validating the sampled dataset
@@ -175,14 +177,14 @@ class SMOTE_IPF(OverSampling):
             predictions = []
             for train_index, _ in validator.split(X_samp, y_samp):
                 self.classifier_obj.fit(X_samp[train_index], y_samp[train_index])
-                predictions.append(self.classifier_obj.predict(X_samp))
+                predictions.append(self.classifier_obj.predict(X_samp) == labels[1])
 
             # do decision based on one of the voting schemes
             if self.params["voting"] == "majority":
-                pred_votes = (np.mean(predictions, axis=0) > 0.5).astype(int)
+                pred_votes = labels[(np.mean(predictions, axis=0) > 0.5).astype(int)]
                 to_remove = np.where(np.not_equal(pred_votes, y_samp))[0]
             elif self.params["voting"] == "consensus":
-                pred_votes = (np.mean(predictions, axis=0) > 0.5).astype(int)
+                pred_votes = labels[(np.mean(predictions, axis=0) > 0.5).astype(int)]
                 sum_votes = np.sum(predictions, axis=0)
                 to_remove = np.where(
                     np.logical_and(
-- 
2.43.0


From e121e1257996e11a78bc092e11fa3a22dc1249dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:29 +0000
Subject: [PATCH 33/69] fix: SSO does not sample when no samples are requested

---
 smote_variants/oversampling/_sso.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smote_variants/oversampling/_sso.py b/smote_variants/oversampling/_sso.py
index ad26087..8129488 100755
--- a/smote_variants/oversampling/_sso.py
+++ b/smote_variants/oversampling/_sso.py
@@ -405,6 +405,9 @@ class SSO(OverSampling):
         # number of samples to generate in each iteration
         n_to_sample = self.det_n_to_sample(self.proportion)
 
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
         samp_per_iter = max([1, int(n_to_sample / self.n_iter)])
 
         nn_params = {**self.nn_params}
-- 
2.43.0


From 0fd49cd89cd18595b2a006919caf9d6842e6f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:29 +0000
Subject: [PATCH 34/69] fix: SMOTE_AMSR returns copies when no sampling is
 needed

---
 smote_variants/oversampling/_smote_amsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_smote_amsr.py b/smote_variants/oversampling/_smote_amsr.py
index 342b56c..3b1ac69 100644
--- a/smote_variants/oversampling/_smote_amsr.py
+++ b/smote_variants/oversampling/_smote_amsr.py
@@ -427,7 +427,7 @@ class SMOTE_AMSR(OverSampling):
         )
         if n_to_sample == 0:
             _logger.warning("%s: Sampling is not needed", self.__class__.__name__)
-            return X, y
+            return X.copy(), y.copy()
 
         mda_scores, clf_anomaly = self._in_danger_iforest(X, y, self.min_label)
 
-- 
2.43.0


From 4f44c7d5c00429dd8836654ed1d74152b2a03dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:29 +0000
Subject: [PATCH 35/69] fix: SOI_CJ does not change its parameters during
 sampling

---
 smote_variants/oversampling/_soi_cj.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index 7cccf90..4243b21 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -350,6 +350,7 @@ class SOI_CJ(OverSamplingSimplex):
             np.array: the generated samples
         """
 
+        gaussian_component_orig = self.gaussian_component
         self.gaussian_component = {"sigmas": std}
 
         nnmt = NearestNeighborsWithMetricTensor(
@@ -362,6 +363,9 @@ class SOI_CJ(OverSamplingSimplex):
             X=X[cluster], indices=indices, n_to_sample=n_to_sample
         )
 
+        # the parameters of the object are not changed by the sampling
+        self.gaussian_component = gaussian_component_orig
+
         # indices = self.random_state.choice(np.arange(len(cluster)),
         #                                        n_to_sample)
         # X_base = X[np.array(cluster)[indices]]
-- 
2.43.0


From f6fe05b6541dd235ecd282ce4cbd004adeb21cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:29 +0000
Subject: [PATCH 36/69] fix: get_params of PDFOS, SOMO, SPY, SYMPROD and
 SMOTEWB return all parameters

---
 smote_variants/oversampling/_pdfos.py   | 1 +
 smote_variants/oversampling/_smotewb.py | 1 +
 smote_variants/oversampling/_somo.py    | 1 +
 smote_variants/oversampling/_spy.py     | 1 +
 smote_variants/oversampling/_symprod.py | 1 +
 5 files changed, 5 insertions(+)

diff --git a/smote_variants/oversampling/_pdfos.py b/smote_variants/oversampling/_pdfos.py
index 44c1577..a79e5db 100755
--- a/smote_variants/oversampling/_pdfos.py
+++ b/smote_variants/oversampling/_pdfos.py
@@ -386,6 +386,7 @@ class PDFOS(OverSampling):
         """
         return {
             "proportion": self.proportion,
+            "metric_learning": self.metric_learning,
             "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index cac99b4..fdf735c 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -386,5 +386,6 @@ class SMOTEWB(OverSampling):
             "max_depth": self.max_depth,
             "nn_params": self.nn_params,
             "n_iters": self.n_iters,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self, deep),
         }
diff --git a/smote_variants/oversampling/_somo.py b/smote_variants/oversampling/_somo.py
index 900cb25..4d027ff 100755
--- a/smote_variants/oversampling/_somo.py
+++ b/smote_variants/oversampling/_somo.py
@@ -433,6 +433,7 @@ class SOMO(OverSamplingSimplex):
             "sigma": self.params["sigma"],
             "learning_rate": self.params["learning_rate"],
             "n_iter": self.params["n_iter"],
+            "nn_params": self.nn_params,
             "n_jobs": self.n_jobs,
             **OverSamplingSimplex.get_params(self),
         }
diff --git a/smote_variants/oversampling/_spy.py b/smote_variants/oversampling/_spy.py
index f4fd83e..3b8d6c0 100755
--- a/smote_variants/oversampling/_spy.py
+++ b/smote_variants/oversampling/_spy.py
@@ -167,5 +167,6 @@ class SPY(OverSampling):
             "n_neighbors": self.n_neighbors,
             "nn_params": self.nn_params,
             "threshold": self.threshold,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index ae3616e..633894b 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -487,5 +487,6 @@ class SYMPROD(OverSampling):
             "m_neighbors": self.params["m_neighbors"],
             "cutoff_threshold": self.params["cutoff_threshold"],
             "nn_params": self.nn_params,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
-- 
2.43.0


From cf65f1bab5ae4640ca0e95b798a279a505e80348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:29 +0000
Subject: [PATCH 37/69] fix: CBSO accepts more neighbors than samples

---
 smote_variants/oversampling/_cbso.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_cbso.py b/smote_variants/oversampling/_cbso.py
index 91b96ee..23b6f9d 100755
--- a/smote_variants/oversampling/_cbso.py
+++ b/smote_variants/oversampling/_cbso.py
@@ -266,7 +266,8 @@ class CBSO(OverSamplingSimplex):
 
         # fitting nearest neighbors model to find neighbors of minority points
         nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=self.n_neighbors + 1, n_jobs=self.n_jobs, **(nn_params)
+            n_neighbors=min([len(X), self.n_neighbors + 1]),
+            n_jobs=self.n_jobs, **(nn_params)
         )
         nnmt.fit(X)
         ind = nnmt.kneighbors(X_min, return_distance=False)
-- 
2.43.0


From 35302f518e2c31d4bcc1c517b85abbe5cea6add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:29 +0000
Subject: [PATCH 38/69] fix: SN_SMOTE works with one neighbor

---
 smote_variants/oversampling/_sn_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sn_smote.py b/smote_variants/oversampling/_sn_smote.py
index a195fbe..88927c6 100755
--- a/smote_variants/oversampling/_sn_smote.py
+++ b/smote_variants/oversampling/_sn_smote.py
@@ -132,7 +132,7 @@ class SN_SMOTE(OverSamplingSimplex):
         centroids = X_min[ncn[:, 0]]
         cent_dist = distances_mahalanobis(X=X_min, Y=centroids, tensor=metric_tensor)
 
-        mask = np.repeat(True, X_min.shape[0])
+        mask = n_cents < self.n_neighbors
         jdx = 2
         while np.any(mask):
             centroids_tmp = (
-- 
2.43.0


From 8fac8f1679d16a7b51b1c6ae6a9742a7359d6d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:29 +0000
Subject: [PATCH 39/69] fix: covariance metric tensors are available for one
 feature

---
 smote_variants/base/_metrictensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 1055721..479be0b 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -612,11 +612,11 @@ class MetricTensor:
                 X_mod, y_mod, self.metric_learning_method, random_state=5
             )
         elif self.metric_learning_method == "cov":
-            self.metric_tensor = np.linalg.inv(fix_pd_matrix(np.cov(X.T)))
+            self.metric_tensor = np.linalg.inv(fix_pd_matrix(np.atleast_2d(np.cov(X.T))))
         elif self.metric_learning_method == "cov_min":
             labels, counts = np.unique(y, return_counts=True)
             min_label = np.max(labels[counts == np.min(counts)])
-            cov = np.cov(X[y == min_label].T)
+            cov = np.atleast_2d(np.cov(X[y == min_label].T))
             self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov))
         elif self.metric_learning_method == "MI_weighted":
             mutuali = estimate_mutual_information(X, y)
-- 
2.43.0


From 05f60b57cab5b473fdab399a930bd0864ce54d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:25 +0000
Subject: [PATCH 40/69] fix: G_SMOTE uses the Gaussian kernel, which does not
 overflow

---
 smote_variants/oversampling/_g_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_g_smote.py b/smote_variants/oversampling/_g_smote.py
index 49b51e9..4ecb2c7 100755
--- a/smote_variants/oversampling/_g_smote.py
+++ b/smote_variants/oversampling/_g_smote.py
@@ -180,7 +180,7 @@ class G_SMOTE(OverSamplingSimplex):
 
             kernel_matrix = pairwise_distances(X_min) ** 2
             kernel_matrix = kernel_matrix / (2.0 * self.sigma**2)
-            kernel_matrix = np.exp(kernel_matrix)
+            kernel_matrix = np.exp(-kernel_matrix)
             eigw, eigv = np.linalg.eig(kernel_matrix)
             H = eigv[np.argmax(eigw)]  # pylint: disable=invalid-name
 
-- 
2.43.0


From d3759ee0b38ce4c969fdfe08a097689d5f6b45bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:15 +0000
Subject: [PATCH 41/69] fix: get_params of OversamplingDrivenUndersampling
 returns its constructor arguments

---
 .../_oversampling_driven_undersampling.py       | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index 43145c4..b1c9886 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -22,6 +22,7 @@ class OversamplingDrivenUndersampling(UnderSampling):
             mode (str): 'random'/'farthest' - the mode of sample removal
         """
         UnderSampling.__init__(self, random_state=random_state)
+        self.oversampler_specification = oversampler_specification
         self.oversampler = instantiate_obj(oversampler_specification)
         self.mode = mode
 
@@ -45,6 +46,22 @@ class OversamplingDrivenUndersampling(UnderSampling):
 
         return cls.generate_parameter_combinations(parameter_combinations, raw)
 
+    def get_params(self, deep=False):
+        """
+        Returns the parameters of the object as a dictionary.
+
+        Args:
+            deep (bool): whether it should be a deep query
+
+        Returns:
+            dict: the parameters of the object
+        """
+        return {
+            "oversampler_specification": self.oversampler_specification,
+            "mode": self.mode,
+            **UnderSampling.get_params(self, deep),
+        }
+
     def sample(self, X, y):
         """
         Carry out the undersampling
-- 
2.43.0


From ef7b506cd2cdf62f470dcfdef4f9fe3f99f19aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:21 +0000
Subject: [PATCH 42/69] fix: ADASYN, MSYN and SYMPROD reject a negative
 proportion or an invalid n_jobs

---
 smote_variants/oversampling/_adasyn.py  | 1 +
 smote_variants/oversampling/_msyn.py    | 1 +
 smote_variants/oversampling/_symprod.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/smote_variants/oversampling/_adasyn.py b/smote_variants/oversampling/_adasyn.py
index a431f18..5a4c501 100755
--- a/smote_variants/oversampling/_adasyn.py
+++ b/smote_variants/oversampling/_adasyn.py
@@ -87,6 +87,7 @@ class ADASYN(OverSamplingSimplex):
         self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
         self.check_greater_or_equal(d_th, "d_th", 0)
         self.check_greater_or_equal(beta, "beta", 0)
+        self.check_greater_or_equal(coalesce(proportion, beta), "proportion", 0)
         self.check_n_jobs(n_jobs, "n_jobs")
 
         self.n_neighbors = n_neighbors
diff --git a/smote_variants/oversampling/_msyn.py b/smote_variants/oversampling/_msyn.py
index 4594806..24a7f8e 100755
--- a/smote_variants/oversampling/_msyn.py
+++ b/smote_variants/oversampling/_msyn.py
@@ -102,6 +102,7 @@ class MSYN(OverSampling):
 
         super().__init__(random_state=random_state)
         self.check_greater_or_equal(pressure, "pressure", 0)
+        self.check_greater_or_equal(coalesce(proportion, pressure), "proportion", 0)
         self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
         self.check_n_jobs(n_jobs, "n_jobs")
 
diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index 633894b..b240928 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -87,6 +87,7 @@ class SYMPROD(OverSampling):
         self.check_greater_or_equal(k_neighbors, "k_neighbors", 1)
         self.check_greater_or_equal(m_neighbors, "m_neighbors", 1)
         self.check_greater_or_equal(cutoff_threshold, "cutoff_threshold", 0.01)
+        self.check_n_jobs(n_jobs, "n_jobs")
 
         self.proportion = proportion
         self.params = {
-- 
2.43.0


From 634930ec885b9f90b01acbf64a320d302ac32ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:17 +0000
Subject: [PATCH 43/69] fix: OversamplingDrivenUndersampling rejects unknown
 modes

---
 .../undersampling/_oversampling_driven_undersampling.py          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index b1c9886..b1522a5 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -22,6 +22,7 @@ class OversamplingDrivenUndersampling(UnderSampling):
             mode (str): 'random'/'farthest' - the mode of sample removal
         """
         UnderSampling.__init__(self, random_state=random_state)
+        self.check_isin(mode, "mode", ["random", "farthest"])
         self.oversampler_specification = oversampler_specification
         self.oversampler = instantiate_obj(oversampler_specification)
         self.mode = mode
-- 
2.43.0


From 7573be2711d1ad847b9c1b30e01de77ed385a6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:01 +0000
Subject: [PATCH 44/69] fix: DSRBF trains its networks with 0/1 targets
 whatever the labels are

---
 smote_variants/oversampling/_dsrbf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_dsrbf.py b/smote_variants/oversampling/_dsrbf.py
index 2e8e707..18c8f36 100755
--- a/smote_variants/oversampling/_dsrbf.py
+++ b/smote_variants/oversampling/_dsrbf.py
@@ -722,9 +722,15 @@ class DSRBF(OverSampling):
         nn_params = {**self.nn_params}
         nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
 
-        p_best = self.execute_optimization(m_max, nn_params, X, y)
+        # the networks are trained with the targets 1 (minority) and 0 (majority)
+        p_best = self.execute_optimization(
+            m_max, nn_params, X, (y == self.min_label).astype(int)
+        )
 
-        return scaler.inverse_transform(p_best[1]), p_best[2]
+        return (
+            scaler.inverse_transform(p_best[1]),
+            np.where(p_best[2] == 1, self.min_label, self.maj_label),
+        )
 
     def get_params(self, deep=False):
         """
-- 
2.43.0


From ef9f325218a087316d1b0f54affd36272a2f7471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:53 +0000
Subject: [PATCH 45/69] fix: deterministic_sample does not decrease the integer
 shares

---
 smote_variants/base/_simplexsampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_simplexsampling.py b/smote_variants/base/_simplexsampling.py
index fcb7c11..6c2b862 100644
--- a/smote_variants/base/_simplexsampling.py
+++ b/smote_variants/base/_simplexsampling.py
@@ -313,7 +313,8 @@ def deterministic_sample(choices, n_to_sample, p):  # pylint: disable=invalid-na
     if n_to_remove == 0:
         return choices[counts_to_vector(sample_counts)]
 
-    non_zero_mask = sample_counts > 0
+    # the integer shares are not to be decreased
+    non_zero_mask = sample_counts > n_to_sample * p
 
     removal_indices = np.floor(
         np.linspace(0.0, np.sum(non_zero_mask), n_to_remove, endpoint=False)
-- 
2.43.0


From c93e4af09d924c5cb495da54f9deeaad490bde9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:53 +0000
Subject: [PATCH 46/69] fix: weighted edges are shrunk towards their base in
 deterministic sampling

---
 smote_variants/base/_simplexsampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_simplexsampling.py b/smote_variants/base/_simplexsampling.py
index 6c2b862..7345608 100644
--- a/smote_variants/base/_simplexsampling.py
+++ b/smote_variants/base/_simplexsampling.py
@@ -585,7 +585,9 @@ class SimplexSamplingMixin(RandomStateMixin):
         pairs = np.array(list(zip(base_indices, neighbor_indices)))
 
         if X_vertices is None or X is X_vertices:
-            pairs.sort()
+            # the edges are directed if the vertices are weighted
+            if vertex_weights is None:
+                pairs.sort()
             X_vertices = X
 
         values, counts = np.unique(pairs, axis=0, return_counts=True)
-- 
2.43.0


From 92cc45ddedd79f9a850be1ae6e2dee530bb09938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:30 +0000
Subject: [PATCH 47/69] fix: get_params of SMOTE_AMSR contains the class name

---
 smote_variants/oversampling/_smote_amsr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smote_amsr.py b/smote_variants/oversampling/_smote_amsr.py
index 3b1ac69..cbad143 100644
--- a/smote_variants/oversampling/_smote_amsr.py
+++ b/smote_variants/oversampling/_smote_amsr.py
@@ -25,7 +25,9 @@ class SMOTE_AMSR(OverSampling):
     categories = [OverSampling.cat_extensive]
 
     # @_deprecate_positional_args
-    def __init__(self, proportion=1.0, *, topology="mesh", random_state=None):
+    def __init__(
+        self, proportion=1.0, *, topology="mesh", random_state=None, **_kwargs
+    ):
         """
         Constructor of the sampling object
 
@@ -445,5 +447,5 @@ class SMOTE_AMSR(OverSampling):
         return {
             "proportion": self.proportion,
             "topology": self.topology,
-            "random_state": self._random_state_init,
+            **OverSampling.get_params(self, deep),
         }
-- 
2.43.0


From 54044588ae47bc489c89a2bc9c01f3bd35f9e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:44 +0000
Subject: [PATCH 48/69] fix: the denominator of mcc does not overflow for large
 counts

---
 smote_variants/base/_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrics.py b/smote_variants/base/_metrics.py
index e855201..240bfd7 100644
--- a/smote_variants/base/_metrics.py
+++ b/smote_variants/base/_metrics.py
@@ -170,7 +170,7 @@ def calculate_label_scores(atoms):
     tn_fn = atoms["fn"] + atoms["tn"]
 
     mcc_num = atoms["tp"] * atoms["tn"] - atoms["fp"] * atoms["fn"]
-    mcc_denom = float(np.prod([tp_fp, tp_fn, tn_fp, tn_fn]))
+    mcc_denom = float(np.prod([tp_fp, tp_fn, tn_fp, tn_fn], dtype=float))
 
     if mcc_denom == 0:
         atoms["mcc"] = None
-- 
2.43.0


From 284ad891f7c118d546bbbd1541ca97d443514a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:05 +0000
Subject: [PATCH 49/69] fix: the process pool does not block on a process which
 died while sending its result

---
 smote_variants/evaluation/_parallelization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index 0b7e698..afd7667 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -104,7 +104,7 @@ def queue_get_default(queue, job):
     """
     try:
         return queue.get(block=False)
-    except Empty:
+    except (Empty, EOFError, OSError):
         return job.timeout()
 
 
@@ -133,6 +133,10 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
 
     process.start()
 
+    # the process is the only writer, so that reading the result of a process
+    # which died while sending it ends
+    queue._writer.close()  # pylint: disable=protected-access
+
     process_start_lock.release()
 
     if timeout is None or timeout <= 0:
-- 
2.43.0


From 5fb1ffba63cdc69d76e7d2d3bad4a3fd853bac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 50/69] fix: damaged pickle files are recognized whatever the
 exception of their unpickling is

---
 smote_variants/base/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index 6d0c039..16d4783 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -291,7 +291,10 @@ def check_if_damaged(filename, serialization="json"):
         damaged = True
     except (JSONDecodeError, UnicodeDecodeError):
         damaged = True
-    except (pickle.UnpicklingError, EOFError):
+    except Exception:  # pylint: disable=broad-except
+        # the unpickling of damaged contents can raise almost any exception
+        if serialization != "pickle":
+            raise
         damaged = True
 
     return damaged
-- 
2.43.0


From 123135dd1ff442de08deb56c54a5d027fd1f0f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 51/69] fix: folding_files returns complete files of the folds
 of the dataset and validator

---
 smote_variants/evaluation/_folding.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index d6331d5..02d4187 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -9,7 +9,7 @@ import shutil
 import numpy as np
 from sklearn.model_selection import RepeatedStratifiedKFold
 
-from ..base import dump_dict
+from ..base import check_if_damaged, dump_dict
 
 __all__ = ["Folding"]
 
@@ -89,15 +89,25 @@ class Folding:
             list: the list of fold filenames
         """
         if self.serialization == "json":
-            path = os.path.join(self.folding_dir_path, "fold_*.json")
+            path = os.path.join(glob.escape(self.folding_dir_path), "fold_*.json")
         elif self.serialization == "pickle":
-            path = os.path.join(self.folding_dir_path, "fold_*.pickle")
+            path = os.path.join(glob.escape(self.folding_dir_path), "fold_*.pickle")
 
         n_folds = (
             self.validator_params["n_repeats"] * self.validator_params["n_splits"]
         )
 
-        if len(glob.glob(path)) < n_folds:
+        files = glob.glob(path)
+
+        # unless the foldings are random, the cost of the foldings is negligible,
+        # and the ones available might belong to another dataset or validator
+        if (
+            isinstance(self.validator_params.get("random_state"), int)
+            or len(files) != n_folds
+            or any(check_if_damaged(file, self.serialization) for file in files)
+        ):
+            for file in files:
+                os.remove(file)
             self.cache_foldings()
 
         return sorted(glob.glob(path))
-- 
2.43.0


From 75cb7c9790a9e25a2516917b3e5f7f7b6efa0ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 52/69] fix: names of caches and datasets are not interpreted
 as patterns

---
 smote_variants/evaluation/_functions.py  | 4 ++--
 smote_variants/evaluation/_processing.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/smote_variants/evaluation/_functions.py b/smote_variants/evaluation/_functions.py
index d7d095b..5ce64bf 100644
--- a/smote_variants/evaluation/_functions.py
+++ b/smote_variants/evaluation/_functions.py
@@ -149,11 +149,11 @@ def do_clean_up(cache_path, clean_up):
     """
 
     if clean_up in ["oversamplings", "all"]:
-        files = glob.glob(os.path.join(cache_path, "oversampling*"))
+        files = glob.glob(os.path.join(glob.escape(cache_path), "oversampling*"))
         for file in files:
             os.remove(file)
     if clean_up == "all":
-        files = glob.glob(os.path.join(cache_path, "fold*"))
+        files = glob.glob(os.path.join(glob.escape(cache_path), "fold*"))
         for file in files:
             os.remove(file)
 
diff --git a/smote_variants/evaluation/_processing.py b/smote_variants/evaluation/_processing.py
index 99aa61e..c3be8c0 100644
--- a/smote_variants/evaluation/_processing.py
+++ b/smote_variants/evaluation/_processing.py
@@ -27,7 +27,7 @@ def datasets_in_cache(cache_path):
     Returns:
         dict: {dataset_name: path} dictionary
     """
-    pattern = os.path.join(cache_path, "*")
+    pattern = os.path.join(glob.escape(cache_path), "*")
     dataset_paths = glob.glob(pattern)
     dataset_dict = {}
     for dataset_path in dataset_paths:
@@ -47,7 +47,7 @@ def load_dataset_data(path):
     Returns:
         pd.DataFrame: all results of the dataset
     """
-    files = glob.glob(os.path.join(path, "evaluation*"))
+    files = glob.glob(os.path.join(glob.escape(path), "evaluation*"))
     data = [load_dict(file) for file in files]
     return pd.DataFrame(data)
 
-- 
2.43.0


From cf7393e45e0ed4664451e1bf182afa1e03464834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 53/69] fix: cached results are identified by the contents of
 the fold and the scaler, too

---
 smote_variants/evaluation/_evaluation.py |  3 +-
 smote_variants/evaluation/_sampling.py   | 48 ++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/smote_variants/evaluation/_evaluation.py b/smote_variants/evaluation/_evaluation.py
index b6058c9..44c790a 100644
--- a/smote_variants/evaluation/_evaluation.py
+++ b/smote_variants/evaluation/_evaluation.py
@@ -82,8 +82,9 @@ class EvaluationJob:
 
         label0 = str(classifier).encode("utf-8")
         label1 = str((oversampling["oversampler"])).encode("utf-8")
+        label2 = str(oversampling.get("hashcode")).encode("utf-8")
 
-        hashcode = str(hashlib.md5(label0 + label1).hexdigest())
+        hashcode = str(hashlib.md5(label0 + label1 + label2).hexdigest())
 
         damaged = False
         if self.cache_path is not None:
diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index 065b7a9..5afb351 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -7,6 +7,8 @@ import os
 import hashlib
 import warnings
 
+import numpy as np
+
 from ..base import (
     instantiate_obj,
     load_dict,
@@ -19,6 +21,26 @@ from ._parallelization import TimeoutJobBase
 __all__ = ["SamplingJob"]
 
 
+def folding_digest(folding):
+    """
+    Determine the digest of the contents of a folding, being the same for
+    the folding in the memory and the one loaded from a file
+
+    Args:
+        folding (dict): a folding
+
+    Returns:
+        str: the digest
+    """
+    digest = hashlib.md5()
+    for key in ["X_train", "y_train", "X_test", "y_test"]:
+        array = np.asarray(folding[key])
+        if array.dtype.kind in "biuf":
+            array = array.astype(float)
+        digest.update(str((key, array.tolist())).encode("utf-8"))
+    return str(digest.hexdigest())
+
+
 class SamplingJob(TimeoutJobBase):
     """
     An oversampling job to be executed in parallel
@@ -77,6 +99,26 @@ class SamplingJob(TimeoutJobBase):
             "reset": self.reset,
         }
 
+    def hashcode(self, folding):
+        """
+        The hash of everything determining the result of the oversampling
+
+        Args:
+            folding (dict): a folding
+
+        Returns:
+            str: the hash
+        """
+        label = str(
+            (
+                self.oversampler,
+                self.oversampler_params,
+                self.scaler,
+                folding_digest(folding),
+            )
+        ).encode("utf-8")
+        return str(hashlib.md5(label).hexdigest())
+
     def target_filename_damaged(self, folding):
         """
         Determine the target filename and whether it is damaged.
@@ -89,11 +131,9 @@ class SamplingJob(TimeoutJobBase):
         """
         target_filename = None
 
-        label = str((self.oversampler, self.oversampler_params)).encode("utf-8")
-        hashcode = str(hashlib.md5(label).hexdigest())
-
         damaged = False
         if self.cache_path is not None:
+            hashcode = self.hashcode(folding)
             filename = (
                 f"oversampling_{folding['fold_descriptor']['repeat_idx']:04}"
                 f"_{folding['fold_descriptor']['fold_idx']:04}"
@@ -154,6 +194,7 @@ class SamplingJob(TimeoutJobBase):
             "oversampler": coalesce_dict(
                 oversampler_obj.get_params(), self.oversampler_params
             ),
+            "hashcode": self.hashcode(folding),
         }
 
         begin_timestamp = time.time()
@@ -246,6 +287,7 @@ class SamplingJob(TimeoutJobBase):
             "fold_descriptor": folding["fold_descriptor"],
             "y_test": folding["y_test"],
             "oversampler": oversampler_obj.get_params(),
+            "hashcode": self.hashcode(folding),
         }
 
         oversampling = {
-- 
2.43.0


From 268e8190956b377a8f4a83ad5f39d5a60cbdae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:33 +0000
Subject: [PATCH 54/69] fix: distances are computed when a single row exceeds
 the memory chunk

---
 smote_variants/base/_metrictensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 479be0b..4808ed1 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -60,7 +60,8 @@ def pairwise_distances_mahalanobis(X, *, Y=None, tensor=None, optimized=True):
 
     max_mem = distance_matrix_max_memory_chunk()
 
-    if X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
+    # a single row cannot be split further
+    if X.shape[0] > 1 and X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
         row_block_size = int(
             np.floor(
                 X.shape[0]
-- 
2.43.0


From bb04fe3c41db99e85687fbfb1c98da0219cc6725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:33 +0000
Subject: [PATCH 55/69] fix: distances under singular metric tensors are not
 undefined due to rounding

---
 smote_variants/base/_metrictensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 4808ed1..30f51e9 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -92,7 +92,8 @@ def pairwise_distances_mahalanobis(X, *, Y=None, tensor=None, optimized=True):
 
     tmp = X[:, None] - Y
 
-    return np.sqrt(np.einsum("ijk,kl,ijl->ij", tmp, tensor, tmp))
+    # rounding can lead to tiny negative values with singular tensors
+    return np.sqrt(np.maximum(np.einsum("ijk,kl,ijl->ij", tmp, tensor, tmp), 0.0))
 
 
 def distances_mahalanobis(X, Y, tensor=None):
@@ -110,7 +111,7 @@ def distances_mahalanobis(X, Y, tensor=None):
     if tensor is None:
         tensor = np.eye(X.shape[1])
     tmp = X - Y
-    return np.sqrt(np.einsum("ij,jk,ik -> i", tmp, tensor, tmp))
+    return np.sqrt(np.maximum(np.einsum("ij,jk,ik -> i", tmp, tensor, tmp), 0.0))
 
 
 def fix_pd_matrix(matrix, eps=1e-4):
-- 
2.43.0


From a6c0bb0757f01a445a6befaed071dfa9b4e837dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:33 +0000
Subject: [PATCH 56/69] fix: radius queries with a metric tensor return indices
 in the requested order, usable for indexing

---
 smote_variants/base/_metrictensor.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 30f51e9..8013fbc 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -699,6 +699,22 @@ class MetricLearningMixin:
         return {}
 
 
+def _array_of_arrays(arrays):
+    """
+    Create an array of arrays of possibly different (or equal) lengths
+
+    Args:
+        arrays (list(np.array)): the arrays
+
+    Returns:
+        np.array: the array of arrays
+    """
+    result = np.empty(len(arrays), dtype=object)
+    for idx, array in enumerate(arrays):
+        result[idx] = array
+    return result
+
+
 class NearestNeighborsWithMetricTensor:
     """
     NearestNeighbors driven by a metric tensor
@@ -838,11 +854,13 @@ class NearestNeighborsWithMetricTensor:
 
         for _, row in enumerate(distm):
             mask = np.where(row <= radius)[0]
+            if sort_results:
+                mask = mask[np.argsort(row[mask], kind="stable")]
             results_dist.append(row[mask])
             results_ind.append(mask)
 
-        results_dist = np.array(results_dist, dtype=object)
-        results_ind = np.array(results_ind, dtype=object)
+        results_dist = _array_of_arrays(results_dist)
+        results_ind = _array_of_arrays(results_ind)
 
         if return_distance:
             return results_dist, results_ind
-- 
2.43.0


From 3a91573a33c68ba0f9ae9800aff1a6b73460e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:33 +0000
Subject: [PATCH 57/69] fix: model selection minimizes the error rates and
 losses

---
 smote_variants/evaluation/_functions.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/smote_variants/evaluation/_functions.py b/smote_variants/evaluation/_functions.py
index 5ce64bf..6645bd9 100644
--- a/smote_variants/evaluation/_functions.py
+++ b/smote_variants/evaluation/_functions.py
@@ -158,6 +158,26 @@ def do_clean_up(cache_path, clean_up):
             os.remove(file)
 
 
+# the error rates and losses, the lowest of which is the best
+_minimized_scores = ["fpr", "fdr", "fnr", "brier", "log_loss"]
+
+
+def _best_rows(pdf, score):
+    """
+    Determine the rows with the best mean score
+
+    Args:
+        pdf (pd.DataFrame): the mean scores
+        score (str): the name of the score
+
+    Returns:
+        pd.DataFrame: the rows with the best mean score
+    """
+    if score in _minimized_scores:
+        return pdf[pdf[score + "_mean"] == pdf[score + "_mean"].min()]
+    return pdf[pdf[score + "_mean"] == pdf[score + "_mean"].max()]
+
+
 def _pivot_best_scores(pdf):
     """
     Pivot the best parameters for each oversampler and classifier
@@ -173,7 +193,7 @@ def _pivot_best_scores(pdf):
     score_means = {}
     score_stds = {}
     for score in all_scores:
-        tmp = pdf[pdf[score + "_mean"] == pdf[score + "_mean"].max()]
+        tmp = _best_rows(pdf, score)
 
         results_dict_classifier[f"{score}_classifier_params"] = pd.Series([None], dtype='str')
         results_dict_classifier[f"{score}_oversampler_params"] = pd.Series([None], dtype='str')
@@ -643,7 +663,7 @@ def model_selection(
         .drop("level_5", axis="columns")
     )
 
-    best_row = pdf[pdf[f"{score}_mean"] == pdf[f"{score}_mean"].max()].iloc[0]
+    best_row = _best_rows(pdf, score).iloc[0]
 
     oversampler = (
         best_row["oversampler_module"],
-- 
2.43.0


From 366f22dd7c74c4d23e15627e84e8c7e356ec566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:42 +0000
Subject: [PATCH 58/69] fix: OversamplingClassifier predicts with oversamplers
 having no transformation of the features

---
 .../classifiers/_oversamplingclassifier.py     | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/smote_variants/classifiers/_oversamplingclassifier.py b/smote_variants/classifiers/_oversamplingclassifier.py
index 1891bca..6c028b5 100755
--- a/smote_variants/classifiers/_oversamplingclassifier.py
+++ b/smote_variants/classifiers/_oversamplingclassifier.py
@@ -49,6 +49,20 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
 
         return self
 
+    def _preprocessing_transform(self, X):
+        """
+        Applies the transformation of the oversampler, if it has any.
+
+        Args:
+            X (np.ndarray): feature vectors
+
+        Returns:
+            np.ndarray: the transformed feature vectors
+        """
+        if hasattr(self.oversampler_obj, "preprocessing_transform"):
+            return self.oversampler_obj.preprocessing_transform(X)
+        return X
+
     def predict(self, X):
         """
         Carries out the predictions.
@@ -58,7 +72,7 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
         """
 
         return self.classifier_obj.predict(
-            self.oversampler_obj.preprocessing_transform(X)
+            self._preprocessing_transform(X)
         )
 
     def predict_proba(self, X):
@@ -70,7 +84,7 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
         """
 
         return self.classifier_obj.predict_proba(
-            self.oversampler_obj.preprocessing_transform(X)
+            self._preprocessing_transform(X)
         )
 
     def get_params(self, deep=True):
-- 
2.43.0


From b025e8511db05f5545268d01e3faebd90382e2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:44 +0000
Subject: [PATCH 59/69] fix: SMOTE_IPF votes on misclassifications, whichever
 class the smaller label belongs to

---
 smote_variants/oversampling/_smote_ipf.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/smote_variants/oversampling/_smote_ipf.py b/smote_variants/oversampling/_smote_ipf.py
index 755be25..8275c51 100755
--- a/smote_variants/oversampling/_smote_ipf.py
+++ b/smote_variants/oversampling/_smote_ipf.py
@@ -168,30 +168,21 @@ class SMOTE_IPF(OverSampling):
 
         n_folds = min([self.params["n_folds"], np.sum(y == self.min_label)])
 
-        labels = np.sort([self.min_label, self.maj_label])
-
         condition = 0
         while condition < self.params["k"]:
             # validating the sampled dataset
             validator = StratifiedKFold(n_folds)
-            predictions = []
+            errors = []
             for train_index, _ in validator.split(X_samp, y_samp):
                 self.classifier_obj.fit(X_samp[train_index], y_samp[train_index])
-                predictions.append(self.classifier_obj.predict(X_samp) == labels[1])
+                predictions = self.classifier_obj.predict(X_samp)
+                errors.append(np.not_equal(predictions, y_samp))
 
             # do decision based on one of the voting schemes
             if self.params["voting"] == "majority":
-                pred_votes = labels[(np.mean(predictions, axis=0) > 0.5).astype(int)]
-                to_remove = np.where(np.not_equal(pred_votes, y_samp))[0]
+                to_remove = np.where(np.mean(errors, axis=0) > 0.5)[0]
             elif self.params["voting"] == "consensus":
-                pred_votes = labels[(np.mean(predictions, axis=0) > 0.5).astype(int)]
-                sum_votes = np.sum(predictions, axis=0)
-                to_remove = np.where(
-                    np.logical_and(
-                        np.not_equal(pred_votes, y_samp),
-                        np.equal(sum_votes, self.params["n_folds"]),
-                    )
-                )[0]
+                to_remove = np.where(np.all(errors, axis=0))[0]
 
             # delete samples incorrectly classified
             _logger.info(
-- 
2.43.0


From 0059feb564199c9f7c11c520b447e474c97d9d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:44 +0000
Subject: [PATCH 60/69] fix: SMOTE_IPF terminates with p=0

---
 smote_variants/oversampling/_smote_ipf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_smote_ipf.py b/smote_variants/oversampling/_smote_ipf.py
index 8275c51..5b504b6 100755
--- a/smote_variants/oversampling/_smote_ipf.py
+++ b/smote_variants/oversampling/_smote_ipf.py
@@ -193,7 +193,9 @@ class SMOTE_IPF(OverSampling):
 
             # if the number of samples removed becomes small or k iterations
             # were done quit
-            check = int(len(to_remove) < len(X_samp) * self.params["p"])
+            check = int(
+                len(to_remove) == 0 or len(to_remove) < len(X_samp) * self.params["p"]
+            )
             condition = (condition + 1) * check
 
         return X_samp, y_samp
-- 
2.43.0


From 06e178c973f2bfb8bc3898fe96820f4baad89b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:35 +0000
Subject: [PATCH 61/69] fix: oversampling driven undersampling of balanced data
 or equidistant rows

---
 .../_oversampling_driven_undersampling.py       | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index b1522a5..b3b487e 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -83,13 +83,22 @@ class OversamplingDrivenUndersampling(UnderSampling):
         X_min = X[y == self.min_label]
         X_maj = X[y == self.maj_label]
 
-        dists = X_new - X_maj[:, None]
+        if X_new.shape[0] > 0:
+            dists = X_new - X_maj[:, None]
 
-        dists = np.min(np.sqrt(np.sum((dists) ** 2, axis=2)), axis=1)
+            dists = np.min(np.sqrt(np.sum((dists) ** 2, axis=2)), axis=1)
+        else:
+            # no samples are generated for balanced or too small data
+            dists = np.zeros(n_maj)
 
         if self.mode == "random":
-            dists = (dists - np.min(dists)) / (np.max(dists) - np.min(dists))
-            inv_dists = 1.0 - dists
+            spread = np.max(dists) - np.min(dists)
+            inv_dists = np.ones(n_maj)
+            if spread > 0:
+                inv_dists = 1.0 - (dists - np.min(dists)) / spread
+
+            # the farthest samples are needed when there are not enough others
+            inv_dists = np.maximum(inv_dists, 1e-12)
 
             p = inv_dists / np.sum(inv_dists)
 
-- 
2.43.0


From 58a7ff718c54aed83eed2bcc6927683cf869c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:25 +0000
Subject: [PATCH 62/69] fix: strong amplification of Stefanowski classifies
 each sample by its own neighbors

---
 smote_variants/oversampling/_stefanowski.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_stefanowski.py b/smote_variants/oversampling/_stefanowski.py
index 75c06cf..8e77dfc 100755
--- a/smote_variants/oversampling/_stefanowski.py
+++ b/smote_variants/oversampling/_stefanowski.py
@@ -209,7 +209,7 @@ class Stefanowski(OverSampling):
         mask = ~safe_flag[minority_indices]
         minority_masked = minority_indices[mask]
         correct_mask = (
-            scipy_mode(y[indices5[minority_masked, 1:]]).mode[:, 0]
+            scipy_mode(y[indices5[minority_masked, 1:]], axis=1).mode[:, 0]
             == y[minority_masked]
         )  # pylint: disable=unexpected-keyword-arg
 
-- 
2.43.0


From 888d133daa0bc6f5e84fdbb551fc755faefb47cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 63/69] fix: Borderline-SMOTE, ISMOTE and VIS_RST sample
 towards the nearest neighbor, too

---
 smote_variants/oversampling/_borderline_smote.py | 6 ------
 smote_variants/oversampling/_ismote.py           | 3 ---
 smote_variants/oversampling/_vis_rst.py          | 4 ++--
 3 files changed, 2 insertions(+), 11 deletions(-)

diff --git a/smote_variants/oversampling/_borderline_smote.py b/smote_variants/oversampling/_borderline_smote.py
index 772049c..583fbca 100755
--- a/smote_variants/oversampling/_borderline_smote.py
+++ b/smote_variants/oversampling/_borderline_smote.py
@@ -210,9 +210,6 @@ class Borderline_SMOTE1(OverSamplingSimplex):
         nnmt.fit(X_min)
         indices = nnmt.kneighbors(X_danger, return_distance=False)
 
-        # X_danger items are also present in X_min
-        indices = indices[:, 1:]
-
         samples = self.sample_simplex(
             X=X_danger, indices=indices, n_to_sample=n_to_sample, X_vertices=X_min
         )
@@ -411,9 +408,6 @@ class Borderline_SMOTE2(OverSamplingSimplex):
         nnmt.fit(X)
         indices = nnmt.kneighbors(X_danger, return_distance=False)
 
-        # X_danger items are also present in X
-        indices = indices[:, 1:]
-
         vertex_weights = np.repeat(1.0, len(X))
         vertex_weights[y == self.maj_label] = 0.5
 
diff --git a/smote_variants/oversampling/_ismote.py b/smote_variants/oversampling/_ismote.py
index 0b63fbd..4102dbe 100755
--- a/smote_variants/oversampling/_ismote.py
+++ b/smote_variants/oversampling/_ismote.py
@@ -160,9 +160,6 @@ class ISMOTE(OverSamplingSimplex):
         vertex_weights = np.repeat(1.0 - self.minority_weight, X.shape[0])
         vertex_weights[y == self.min_label] = self.minority_weight
 
-        # removing the minority samples from their own neighborhoods
-        ind = ind[:, 1:]
-
         samples = self.sample_simplex(
             X=X_min,
             indices=ind,
diff --git a/smote_variants/oversampling/_vis_rst.py b/smote_variants/oversampling/_vis_rst.py
index d91071e..73add98 100755
--- a/smote_variants/oversampling/_vis_rst.py
+++ b/smote_variants/oversampling/_vis_rst.py
@@ -242,7 +242,7 @@ class VIS_RST(OverSamplingSimplex):
 
             samples_tmp = self.sample_simplex(
                 X=X_min_not_noise[base_not_danger],
-                indices=ind_not_noise[base_not_danger, 1:],
+                indices=ind_not_noise[base_not_danger],
                 n_to_sample=n_missing,
                 X_vertices=X_min,
             )
@@ -289,7 +289,7 @@ class VIS_RST(OverSamplingSimplex):
 
             samples_tmp = self.sample_simplex(
                 X=X_min_not_noise[base_danger],
-                indices=ind_not_noise[base_danger, 1:],
+                indices=ind_not_noise[base_danger],
                 n_to_sample=n_missing,
                 X_vertices=X_min,
             )
-- 
2.43.0


From 78a7caa4fff82c5c4d7439de1555f7b540177e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:44 +0000
Subject: [PATCH 64/69] fix: count the minority samples right of the split in
 TRIM-SMOTE

comparing a list with a label is False, so right_min started from 0 and
the trim value of the right side was that of the left
---
 smote_variants/oversampling/_trim_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_trim_smote.py b/smote_variants/oversampling/_trim_smote.py
index 79303b5..3105766 100755
--- a/smote_variants/oversampling/_trim_smote.py
+++ b/smote_variants/oversampling/_trim_smote.py
@@ -167,7 +167,7 @@ class TRIM_SMOTE(OverSamplingSimplex):
             sorted_X_y = sorted(  # pylint: disable=invalid-name
                 zip(X[:, idx], y), key=lambda pair: pair[0]
             )
-            sorted_y = [yy for _, yy in sorted_X_y]
+            sorted_y = np.array([yy for _, yy in sorted_X_y])
 
             # number of minority samples on the left
             left_min = 0
-- 
2.43.0


From 93426a0e8f4a7caa73249118a27e3c356ba3e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:44 +0000
Subject: [PATCH 65/69] fix: TRIM-SMOTE splits at class borders between the
 samples of different classes

the labels compared were those of the sample before the split and its
predecessor, the split is between it and its successor
---
 smote_variants/oversampling/_trim_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_trim_smote.py b/smote_variants/oversampling/_trim_smote.py
index 3105766..38c547d 100755
--- a/smote_variants/oversampling/_trim_smote.py
+++ b/smote_variants/oversampling/_trim_smote.py
@@ -186,7 +186,7 @@ class TRIM_SMOTE(OverSamplingSimplex):
                     split_on_border is False
                     or (
                         split_on_border is True
-                        and not sorted_y[jdx - 1] == sorted_y[jdx]
+                        and not sorted_y[jdx] == sorted_y[jdx + 1]
                     )
                 ) and sorted_X_y[jdx][0] != sorted_X_y[jdx + 1][0]:
                     # compute trim value of the left
-- 
2.43.0


From 11a62d7c8ed810bed960932bfa4f7aab9781ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:56 +0000
Subject: [PATCH 66/69] fix: SOI_CJ keeps the clusters of minority samples
 without majority samples nearby

the neighborhoods of as many samples as the minority has need not contain
a majority sample, and the clusters were then empty: separated classes
were not oversampled at all
---
 smote_variants/oversampling/_soi_cj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index 4243b21..25a55f7 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -225,7 +225,7 @@ class SOI_CJ(OverSamplingSimplex):
         # extract nearest neighbors of all samples from the set of
         # minority samples
         nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=len(X_min), n_jobs=self.n_jobs, **nn_params
+            n_neighbors=len(X_min) + 1, n_jobs=self.n_jobs, **nn_params
         )
         nnmt.fit(X)
         indices = nnmt.kneighbors(X_min, return_distance=False)
-- 
2.43.0


From 97364997acdb28dc6afb353be57e46a05a00129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:00 +0000
Subject: [PATCH 67/69] fix: SOI_CJ stores the rearranged clusters where they
 were taken from

the index of the second cluster was relative to the first one, so merging
emptied an unrelated cluster
---
 smote_variants/oversampling/_soi_cj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index 25a55f7..e99196b 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -238,7 +238,7 @@ class SOI_CJ(OverSamplingSimplex):
         while is_intersection:
             is_intersection = False
             for idx, cluster_idx in enumerate(clusters):
-                for jdx, cluster_jdx in enumerate(clusters[(idx + 1) :]):
+                for jdx, cluster_jdx in enumerate(clusters[(idx + 1) :], idx + 1):
                     # computing intersection
                     intersection = cluster_idx.intersection(cluster_jdx)
                     if len(intersection) > 0:
-- 
2.43.0


From 4bbc67d4f9a8d68ff2bdf7938a3aa5adb0670fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:54 +0000
Subject: [PATCH 68/69] fix: SOI_CJ measures the ball between two clusters by
 the metric of its queries

the radius was the Euclidean distance also when a metric tensor is given
---
 smote_variants/oversampling/_soi_cj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index e99196b..ddc677a 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -163,7 +163,7 @@ class SOI_CJ(OverSamplingSimplex):
 
         # finding midpoint and radius
         mid_point = (max_i + max_j) / 2.0
-        radius = np.linalg.norm(mid_point - max_i)
+        radius = np.max(distm) / 2.0
 
         # extracting points within the hypersphare of
         # radius "radius"
-- 
2.43.0


From 9f72452ec8d3654f9b8507fc3b046b5e541d9223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:05 +0000
Subject: [PATCH 69/69] fix: rounding does not decide whether SOI_CJ merges two
 clusters

the two samples spanning the ball were counted or not depending on the
rounding of their distances, so shifting the data changed the clusters
---
 smote_variants/oversampling/_soi_cj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index ddc677a..2f88c55 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -163,7 +163,8 @@ class SOI_CJ(OverSamplingSimplex):
 
         # finding midpoint and radius
         mid_point = (max_i + max_j) / 2.0
-        radius = np.max(distm) / 2.0
+        # the end points are contained, regardless of the rounding
+        radius = np.max(distm) / 2.0 * (1.0 + 1e-9)
 
         # extracting points within the hypersphare of
         # radius "radius"
-- 
2.43.0


From a2cec6ed10f675e9755520af76b3d29f512d7720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 01/19] fix: predict converts ids by the types of the columns
 selected by event_index

---
 kamrecsys/base/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 239450f..9008cf4 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -248,9 +248,15 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)[:, self.event_index]
+        eev = check_array(np.atleast_2d(eev), dtype=int)
 
-        return np.squeeze(self.raw_predict(self.to_iid_event(eev)))
+        # ids are converted by using all elements of events, because they
+        # correspond to `event_otypes`; unknown ids are represented by the
+        # numbers of objects.
+        n_objects = [len(self.eid[otype]) for otype in self.event_otypes]
+        ev = self.to_iid_event(eev, missing_values=n_objects)
+
+        return np.squeeze(self.raw_predict(ev[:, self.event_index]))
 
 
 # =============================================================================
-- 
2.43.0


From 3abd760efe23970541e12e08c956c1c1bcc6c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 02/19] fix: implicit feedback matrix is binary and event_index
 is applied only once

---
 kamrecsys/item_finder/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index d9c712b..4e45306 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -165,11 +165,11 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
             raise TypeError("illegal type of sparse matrices")
 
         # get number of objects
-        n_objects = self.n_objects[self.event_otypes[self.event_index]]
+        # NOTE: `event_index` was already applied in the `fit` method
+        n_objects = self.n_objects
 
-        # get event data
-        users = self.event[:, self.event_index[0]]
-        items = self.event[:, self.event_index[1]]
+        # get event data, and repeated events are counted only once
+        users, items = np.unique(self.event, axis=0).T
         scores = np.ones_like(users, dtype=int)
 
         # generate array
-- 
2.43.0


From 451a56f779ce0cc64cff4237c066dbf61fa9dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 03/19] fix: matrix factorization models can be fitted to data
 of a single user or item

---
 kamrecsys/item_finder/matrix_factorization.py     | 8 ++++----
 kamrecsys/score_predictor/matrix_factorization.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index f1e2d48..d44c9cd 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -172,8 +172,8 @@ class LogisticPMF(BaseExplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
@@ -545,8 +545,8 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 782474a..44e7e47 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -161,8 +161,8 @@ class PMF(BaseScorePredictor):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
-- 
2.43.0


From 3cc5a1f7648a6634bc3c9c103af58b5a02418ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 04/19] fix: statistics_mean accepts lists of lists as
 documented

---
 kamrecsys/metrics/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 295e58a..d1aa4c6 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -92,7 +92,7 @@ def statistics_mean(fun, *arg_list):
             args = [arg[k] for arg in arg_list]
             stats.append(fun(*args))
 
-    elif isinstance(arg_list[0], dict):
+    elif isinstance(arg_list[0], list):
 
         # in a case of list list, collect elements at the same position
         for k in xrange(len(arg_list[0])):
-- 
2.43.0


From ce2ccf7ddb424a22d7c33a401b896e5191b3c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 05/19] fix: score_histogram accepts the number of bins as a
 plain int

---
 kamrecsys/metrics/real.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index cf53762..5315acf 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -147,7 +147,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
 
     # check inputs
     assert_all_finite(x)
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, (int, np.integer)):
         bins = score_domain
     else:
         assert_all_finite(score_domain)
@@ -157,7 +157,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
     hist, bins = np.histogram(x, bins=bins)
 
     # candidates of possible scores
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, (int, np.integer)):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
         scores = np.hstack(
-- 
2.43.0


From bb7ee80c54f3cec6758593c6cdef6c73cbd6cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 06/19] fix: to_eid rejects negative internal ids

---
 kamrecsys/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index 85be1d9..feab9f2 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -89,6 +89,8 @@ class ObjectUtilMixin(object):
         ValueError
             an internal id is out of range
         """
+        if np.any(np.less(iid, 0)):
+            raise ValueError("Illegal internal id")
         try:
             return self.eid[otype][iid]
         except IndexError:
-- 
2.43.0


From 74b3d2d8f4cac89b38b507691b67bcdadbdc93f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 07/19] fix: filter_event of scored events accepts any
 array-like conditions

---
 kamrecsys/data/event_with_score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index f1340a0..0e7543a 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -232,7 +232,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
 
         # filter out event data
         if self.score is not None:
-            data.score = self.score[filter_cond]
+            data.score = self.score[np.asarray(filter_cond)]
 
         return data
 
-- 
2.43.0


From 0f8b81198228b32e81c16765368bbbabdcb2b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 08/19] fix: recommenders do not modify the options given by a
 caller

---
 kamrecsys/item_finder/matrix_factorization.py     | 4 ++--
 kamrecsys/score_predictor/matrix_factorization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index d44c9cd..fa63bc9 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -128,7 +128,7 @@ class LogisticPMF(BaseExplicitItemFinder):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
@@ -503,7 +503,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 44e7e47..ab35b4d 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -117,7 +117,7 @@ class PMF(BaseScorePredictor):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
-- 
2.43.0


From 07bb266a0f1241f0da57473ce3dff2bc275dcbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 09/19] fix: a fitted recommender does not share its id tables
 with training data

---
 kamrecsys/data/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index feab9f2..c1ba689 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -64,9 +64,9 @@ class ObjectUtilMixin(object):
             raise TypeError("input data must data.BaseData class")
 
         self.n_otypes = data.n_otypes
-        self.n_objects = data.n_objects
-        self.eid = data.eid
-        self.iid = data.iid
+        self.n_objects = data.n_objects.copy()
+        self.eid = data.eid.copy()
+        self.iid = data.iid.copy()
 
     def to_eid(self, otype, iid):
         """
-- 
2.43.0


From f50ceb5916a1b4497f87d2b2eea988e59176474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 10/19] fix: scripts do not use the removed encoding argument
 of json.load

---
 scripts/exp_recsys_fold_merge.py | 4 ++--
 scripts/stats_recsys.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/exp_recsys_fold_merge.py b/scripts/exp_recsys_fold_merge.py
index 9af0720..a580a72 100644
--- a/scripts/exp_recsys_fold_merge.py
+++ b/scripts/exp_recsys_fold_merge.py
@@ -90,7 +90,7 @@ def first_fold(fp):
     """
 
     # load json file of the target fold
-    cv_info = json.load(fp, encoding='utf-8')
+    cv_info = json.load(fp)
 
     # add container of merged information
     cv_info['condition']['merged'] = True
@@ -121,7 +121,7 @@ def rest_fold(fp, cv_info):
     """
 
     # load json file of the target fold
-    info = json.load(fp, encoding='utf-8')
+    info = json.load(fp)
 
     # get fold number
     fold = next(iter(info['training']['results']))
diff --git a/scripts/stats_recsys.py b/scripts/stats_recsys.py
index d588a1e..8e2eb31 100644
--- a/scripts/stats_recsys.py
+++ b/scripts/stats_recsys.py
@@ -102,7 +102,7 @@ def do_task(opt):
     np.seterr(all='ignore')
 
     # load data
-    info = json.load(opt.infile, encoding='utf-8')
+    info = json.load(opt.infile)
 
     # merge multi-fold data
     if isinstance(info['prediction']['event'], dict):
-- 
2.43.0


From e8a2ef22f64ba9b981892b7ed0052e6e72614790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 11/19] fix: keep the name of a test file in hold-out
 experiments

---
 scripts/exp_recsys_util.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 101a426..4d94c96 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -175,7 +175,6 @@ def holdout_test(info, load_data):
     info['training']['n_items'] = (
         train_data.n_objects[train_data.event_otypes[1]])
 
-    info['test']['file'] = info['training']['file']
     info['test']['n_events'] = test_data.n_events
     info['test']['n_users'] = (
         test_data.n_objects[test_data.event_otypes[0]])
-- 
2.43.0


From 94a3c8da2185dde6584c46dfad359d8fa14655d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 12/19] fix: the end time of a test is recorded

---
 scripts/exp_recsys_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 4d94c96..3cf12d1 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -134,7 +134,7 @@ def testing(rec, ev):
     # set end and elapsed time
     end_time = datetime.datetime.now()
     end_utime = os.times()[0]
-    res_info['end_time'] = start_time.isoformat()
+    res_info['end_time'] = end_time.isoformat()
     res_info['elapsed_time'] = end_time - start_time
     res_info['elapsed_utime'] = end_utime - start_utime
     logger.info("test_end_time = " + res_info['end_time'])
-- 
2.43.0


From a6f2f97f7a0cdb428785562b92af574c27bf5b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:19 +0000
Subject: [PATCH 13/19] fix: an invalid validation scheme is reported by
 TypeError

---
 scripts/exp_recsys_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 3cf12d1..d2fa3a6 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -320,7 +320,8 @@ def do_task(info, load_data, target_fold=None):
     elif info['condition']['scheme'] == 'cv':
         cv_test(info, load_data, target_fold=target_fold)
     else:
-        raise TypeError("Invalid validation scheme: {0:s}".format(opt.method))
+        raise TypeError("Invalid validation scheme: {0:s}".format(
+            str(info['condition']['scheme'])))
 
     # output information
     outfile = info['condition']['out_file']
-- 
2.43.0


From 1d4ed9d56aac28335f5658252e6bf14352a9b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:19 +0000
Subject: [PATCH 14/19] fix: pLSA converged at the last iteration is not a
 failure

---
 kamrecsys/score_predictor/topic_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/score_predictor/topic_model.py b/kamrecsys/score_predictor/topic_model.py
index 08307b7..d86c00f 100644
--- a/kamrecsys/score_predictor/topic_model.py
+++ b/kamrecsys/score_predictor/topic_model.py
@@ -288,7 +288,7 @@ class MultinomialPLSA(BaseScorePredictor):
                 break
             pre_loss = cur_loss
 
-        if iter_no >= maxiter - 1:
+        else:
             self.fit_results_['status'] = 2
             logger.warning(
                 "Exceeded the maximum number of iterations: {:d}".format(
-- 
2.43.0


From 0402095444238fe24c1af9f2aa66fa4f5a6233c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:19 +0000
Subject: [PATCH 15/19] fix: model_selection works with the current
 scikit-learn

---
 kamrecsys/model_selection/split.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index f9e311c..a2ee7f1 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -24,7 +24,6 @@ import numpy as np
 from sklearn.utils import indexable, check_random_state
 from sklearn.model_selection import (
     BaseCrossValidator, PredefinedSplit, train_test_split, KFold)
-from sklearn.model_selection._split import _validate_shuffle_split_init
 
 # =============================================================================
 # Metadata variables
@@ -86,7 +85,6 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
         super(ShuffleSplitWithinGroups, self).__init__()
 
-        _validate_shuffle_split_init(test_size, train_size)
         self.n_splits = int(n_splits)
         self.test_size = test_size
         self.train_size = train_size
@@ -272,7 +270,8 @@ class KFoldWithinGroups(BaseCrossValidator):
         iters = np.empty(group_indices.shape[0], dtype=object)
 
         # generate iterators
-        cv = KFold(self.n_splits, self.shuffle, rng)
+        cv = KFold(self.n_splits, shuffle=self.shuffle,
+                   random_state=rng if self.shuffle else None)
         for i, g in enumerate(group_indices):
             group_member = indices[groups == g]
             iters[i] = cv.split(group_member)
-- 
2.43.0


From 1f52418eb0f61606417dad103712a8d94a7afa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:19 +0000
Subject: [PATCH 16/19] fix: the number of score levels is free from floating
 point errors

---
 kamrecsys/data/event_with_score.py   | 3 ++-
 kamrecsys/metrics/base.py            | 5 +++--
 kamrecsys/metrics/real.py            | 4 ++--
 kamrecsys/metrics/score_predictor.py | 4 ++--
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index 0e7543a..948f6ad 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -155,7 +155,8 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
                 np.min(np.diff(np.unique(self.score)))]
         self.score_domain = np.asanyarray(score_domain)
         self.n_score_levels = (
-            int((score_domain[1] - score_domain[0]) / score_domain[2]) + 1)
+            int((score_domain[1] - score_domain[0]) / score_domain[2] + 0.5) +
+            1)
 
     def digitize_score(self, score=None):
         """
diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index d1aa4c6..64a5c82 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -57,8 +57,9 @@ def generate_score_bins(score_domain):
         bins of histogram. boundaries of bins are placed at the center of
         adjacent scores.
     """
-    bins = np.arange(score_domain[0], score_domain[1], score_domain[2],
-                     dtype=float)
+    # a half of a stride is subtracted to exclude the maximum score robustly
+    bins = np.arange(score_domain[0], score_domain[1] - score_domain[2] / 2,
+                     score_domain[2], dtype=float)
     bins = np.hstack([-np.inf, bins + score_domain[2] / 2, np.inf])
 
     return bins
diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index 5315acf..48a6dd1 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -161,8 +161,8 @@ def score_histogram(x, score_domain=(1, 5, 1)):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
         scores = np.hstack(
-            [np.arange(score_domain[0], score_domain[1], score_domain[2],
-                       dtype=float),
+            [np.arange(score_domain[0], score_domain[1] - score_domain[2] / 2,
+                       score_domain[2], dtype=float),
              score_domain[1]])
 
     # return statistics
diff --git a/kamrecsys/metrics/score_predictor.py b/kamrecsys/metrics/score_predictor.py
index 9a85d51..eb242bd 100644
--- a/kamrecsys/metrics/score_predictor.py
+++ b/kamrecsys/metrics/score_predictor.py
@@ -142,8 +142,8 @@ def score_predictor_statistics(y_true, y_pred, score_domain=(1, 5, 1)):
 
     # a list of possible score levels
     stats['score levels'] = np.hstack([
-        np.arange(score_domain[0], score_domain[1], score_domain[2],
-                  dtype=float), score_domain[1]])
+        np.arange(score_domain[0], score_domain[1] - score_domain[2] / 2,
+                  score_domain[2], dtype=float), score_domain[1]])
 
     # mean absolute error
     mean, stdev = mean_absolute_error(y_true, y_pred)
-- 
2.43.0


From d3ff0ec2bd608932fe34590a46a6c28589fb87af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:05 +0000
Subject: [PATCH 17/19] fix: event files of a single event or of events of a
 single object are loaded

---
 kamrecsys/datasets/base.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/datasets/base.py b/kamrecsys/datasets/base.py
index 656e128..7c85002 100644
--- a/kamrecsys/datasets/base.py
+++ b/kamrecsys/datasets/base.py
@@ -85,11 +85,12 @@ def load_event(infile, n_otypes=2, event_otypes=None, event_dtype=None):
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events)])
+        dtype = np.dtype([('event', int, (s_events,))])
     else:
-        dtype = np.dtype([('event', int, s_events),
+        dtype = np.dtype([('event', int, (s_events,)),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
@@ -137,11 +138,12 @@ def load_event_with_score(
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events), ('score', float)])
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float)])
     else:
-        dtype = np.dtype([('event', int, s_events), ('score', float),
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventWithScoreData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
-- 
2.43.0


From f52dfd56da0866cf524ff9c85a38ee95d3c8d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:50:27 +0000
Subject: [PATCH 18/19] fix: json_decodable converts dictionary-of-keys sparse
 matrices

---
 kamrecsys/utils/kamexputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/utils/kamexputils.py b/kamrecsys/utils/kamexputils.py
index c49553d..f373092 100644
--- a/kamrecsys/utils/kamexputils.py
+++ b/kamrecsys/utils/kamexputils.py
@@ -64,7 +64,7 @@ def json_decodable(x):
 
     if isinstance(x, dict):
         for k, v in x.items():
-            if isinstance(v, (dict, list)):
+            if isinstance(v, (dict, list)) and not issparse(v):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
                 x[k] = v.tolist()
@@ -82,7 +82,7 @@ def json_decodable(x):
                 x[k] = str(v)
     elif isinstance(x, list):
         for k, v in enumerate(x):
-            if isinstance(v, (dict, list)):
+            if isinstance(v, (dict, list)) and not issparse(v):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
                 x[k] = v.tolist()
-- 
2.43.0


From be721f47f85f7a27e0d1772b609cecd85dd62703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:39:10 +0000
Subject: [PATCH 19/19] fix: non-ASCII item names of MovieLens data are read as
 UTF-8

---
 kamrecsys/datasets/movielens.py | 4 ++--
 kamrecsys/datasets/sushi3.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/datasets/movielens.py b/kamrecsys/datasets/movielens.py
index 96725de..fee03ad 100644
--- a/kamrecsys/datasets/movielens.py
+++ b/kamrecsys/datasets/movielens.py
@@ -176,7 +176,7 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
                        ('imdb', 'U134')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+                      encoding='utf-8')
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
@@ -303,7 +303,7 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
                        ('genre', 'i1', 18)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+                      encoding='utf-8')
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
diff --git a/kamrecsys/datasets/sushi3.py b/kamrecsys/datasets/sushi3.py
index 8bb0d9a..9a12374 100644
--- a/kamrecsys/datasets/sushi3.py
+++ b/kamrecsys/datasets/sushi3.py
@@ -205,7 +205,7 @@ def load_sushi3b_score(infile=None, event_dtype=None):
         ('supply', float)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+                      encoding='utf-8')
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
-- 
2.43.0


From 09dd1e12fa492d50e34970a8e5b31efdb63707f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 01/49] fix: check_array returned the ValueError for an empty
 batch instead of raising it

---
 pure_sklearn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 2787413..433e195 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -94,7 +94,7 @@ def check_array(X, handle_sparse="error"):
     if not isinstance(X, list):
         raise TypeError("Input 'X' must be a list")
     if len(X) == 0:
-        return ValueError("Input 'X' must not be empty")
+        raise ValueError("Input 'X' must not be empty")
     return X
 
 
-- 
2.43.0


From a1379794a9ccd723b6cd6fc4c079b4924057231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 02/49] fix: compare versions without distutils, which is not
 in the standard library of Python 3.12

---
 pure_sklearn/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 433e195..e395cda 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -3,10 +3,10 @@ Utility functions
 """
 
 import pickle
+import re
 import time
 
 from warnings import warn
-from distutils.version import LooseVersion
 
 CONTAINERS = (list, dict, tuple)
 TYPES = (int, float, str, bool, type)
@@ -40,6 +40,15 @@ def check_types(obj, containers=CONTAINERS, types=TYPES):
         raise ValueError("Object contains invalid type: {}".format(type(obj)))
 
 
+def _parse_version(version):
+    """ Release numbers of a version string, e.g. '0.21.3' -> [0, 21, 3] """
+    release = re.match(r"\d+(\.\d+)*", version).group()
+    numbers = [int(number) for number in release.split(".")]
+    while numbers and numbers[-1] == 0:
+        numbers.pop()
+    return numbers
+
+
 def check_version(estimator, min_version=None):
     """ Checks the version of the scikit-learn estimator """
     warning_str = (
@@ -53,14 +62,14 @@ def check_version(estimator, min_version=None):
         warn(warning_str)
         return
     if (min_version is not None) and (
-        LooseVersion(version_) < LooseVersion(min_version)
+        _parse_version(version_) < _parse_version(min_version)
     ):
         raise Exception(
             "The sklearn version is too low for this estimator; must be >= {}".format(
                 min_version
             )
         )
-    elif LooseVersion(version_) < LooseVersion(MIN_VERSION):
+    elif _parse_version(version_) < _parse_version(MIN_VERSION):
         warn(warning_str)
 
 
-- 
2.43.0


From 3645066007ccb350554258040aff75d4b50d92c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 03/49] fix: numpy scalars (np.float64, np.str_) in
 hyperparameters and labels leaked into converted models

---
 pure_sklearn/utils.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index e395cda..ff9ecde 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -13,27 +13,45 @@ TYPES = (int, float, str, bool, type)
 MIN_VERSION = "0.20"
 
 
+def _to_pure(obj):
+    """
+    Converts numpy scalars (e.g. hyperparameters taken from a parameter
+    grid) to their pure python equivalents. Containers are converted
+    recursively.
+    """
+    if isinstance(obj, dict):
+        return {_to_pure(k): _to_pure(v) for k, v in obj.items()}
+    elif type(obj) in (list, tuple):
+        return type(obj)(map(_to_pure, obj))
+    elif type(obj).__module__ == "numpy" and getattr(obj, "shape", None) == ():
+        return obj.item()
+    else:
+        return obj
+
+
 def check_types(obj, containers=CONTAINERS, types=TYPES):
     """
     Checks if input object is an allowed type. Objects can be
     acceptable containers or acceptable types themselves.
     Containers are checked recursively to ensure all contained
     types are valid. If object is a `pure_sklearn` type, its
-    attributes are all recursively checked.
+    attributes are converted from numpy scalars if necessary
+    and all recursively checked.
     """
     if isinstance(obj, containers):
         if isinstance(obj, (list, tuple)):
             for ob in obj:
-                check_types(ob)
+                check_types(ob, containers, types)
         else:
             for k, v in obj.items():
-                check_types(k)
-                check_types(v)
-    elif isinstance(obj, types):
+                check_types(k, containers, types)
+                check_types(v, containers, types)
+    elif type(obj) in types:
         pass
     elif "pure_sklearn" in str(type(obj)):
-        for attr in vars(obj):
-            check_types(getattr(obj, attr))
+        for attr, value in list(vars(obj).items()):
+            setattr(obj, attr, _to_pure(value))
+            check_types(getattr(obj, attr), containers, types)
     elif obj is None:
         pass
     else:
-- 
2.43.0


From bf15920eaec6ef92bdb95402a9b7c9615110c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 04/49] fix: binary CountVectorizer and HashingVectorizer
 returned a plain list of dicts, not a sparse_list

---
 pure_sklearn/feature_extraction/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index e3164cf..a9db839 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -377,7 +377,9 @@ class CountVectorizerPure(_VectorizerMixinPure):
 
         _, X = self._count_vocab(raw_documents)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(
+                [dict.fromkeys(x, 1) for x in X], size=X.size, dtype=X.dtype
+            )
         return X
 
 
@@ -481,7 +483,9 @@ class HashingVectorizerPure(_VectorizerMixinPure):
         analyzer = self.build_analyzer()
         X = self._get_hasher().transform(analyzer(doc) for doc in X)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(
+                [dict.fromkeys(x, 1) for x in X], size=X.size, dtype=X.dtype
+            )
 
         if self.norm is not None:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From 4e3ada774341cee1f7a21604fa00f62df7a88de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 05/49] fix: hashing vectorizer overwrote repeated or colliding
 tokens instead of summing them

---
 pure_sklearn/feature_extraction/_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/_hash.py b/pure_sklearn/feature_extraction/_hash.py
index 05ddeae..5212039 100755
--- a/pure_sklearn/feature_extraction/_hash.py
+++ b/pure_sklearn/feature_extraction/_hash.py
@@ -109,7 +109,7 @@ def _hashing_transform(raw_X, n_features, dtype, alternate_sign=1, seed=0):
             index = abs(h) % n_features
             if alternate_sign:
                 value *= (h >= 0) * 2 - 1
-            row[index] = value
+            row[index] = row.get(index, 0) + value
         X.append(row)
     return sparse_list(X, size=n_features, dtype=dtype)
 
-- 
2.43.0


From 294461a9fbaf3545b5cb4b666b57760a288ffb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 06/49] fix: inconsistent stop words warning failed for lack of
 the warnings import

---
 pure_sklearn/feature_extraction/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index a9db839..2f213f7 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -5,6 +5,7 @@ build feature vectors from text documents.
 
 import re
 import unicodedata
+import warnings
 
 from functools import partial
 from collections import defaultdict
-- 
2.43.0


From 2a643ed2231c925d987998e91a7550c183007620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 07/49] fix: TfidfTransformer failed without idf, with
 sublinear_tf and on dense input, and modified its input

---
 pure_sklearn/feature_extraction/text.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 2f213f7..7a838d5 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -15,11 +15,13 @@ from ..utils import (
     check_types,
     convert_type,
     sparse_list,
+    issparse,
+    tosparse,
     shape,
     check_array,
-    check_types,
     check_version,
 )
+from ..base import apply_2d_sparse, safe_log
 from ..map import convert_estimator
 from ..preprocessing import normalize_pure
 from ._hash import _FeatureHasherPure
@@ -417,28 +419,32 @@ class TfidfTransformerPure:
         self.use_idf = estimator.use_idf
         self.smooth_idf = estimator.smooth_idf
         self.sublinear_tf = estimator.sublinear_tf
-        self.idf_ = estimator.idf_.tolist()
-        self.expected_n_features_ = estimator._idf_diag.shape[0]
+        if self.use_idf:
+            self.idf_ = estimator.idf_.tolist()
+            self.expected_n_features_ = estimator._idf_diag.shape[0]
         check_types(self)
 
     def transform(self, X, copy=True):
         X = check_array(X, handle_sparse="allow")
+        if not issparse(X):
+            X = tosparse(X)
         n_samples, n_features = shape(X)
 
         if self.sublinear_tf:
-            for index in range(len(X)):
-                X[index] = safe_log(X[index]) + 1
+            X = apply_2d_sparse(X, lambda v: safe_log(v) + 1 if v != 0 else v)
 
         if self.use_idf:
             if n_features != self.expected_n_features_:
                 raise ValueError(
                     "Input has n_features=%d while the model"
                     " has been trained with n_features=%d"
-                    % (n_features, expected_n_features)
+                    % (n_features, self.expected_n_features_)
                 )
-            for index in range(len(X)):
-                for k, v in X[index].items():
-                    X[index][k] = v * self.idf_[k]
+            X = sparse_list(
+                [{k: v * self.idf_[k] for k, v in x.items()} for x in X],
+                size=X.size,
+                dtype=X.dtype,
+            )
 
         if self.norm:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From 39c6cf40edf04c25045029d36e618358135b2d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 08/49] fix: sparse DictVectorizer overwrote entries of a
 record that share a column instead of summing them

---
 pure_sklearn/feature_extraction/_dict_vectorizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/_dict_vectorizer.py b/pure_sklearn/feature_extraction/_dict_vectorizer.py
index cee2858..6937ea2 100755
--- a/pure_sklearn/feature_extraction/_dict_vectorizer.py
+++ b/pure_sklearn/feature_extraction/_dict_vectorizer.py
@@ -38,7 +38,12 @@ class DictVectorizerPure:
                     f = "%s%s%s" % (f, self.separator, v)
                     v = 1
                 if f in vocab:
-                    row[vocab[f]] = dtype(v)
+                    # like sklearn, entries that share a column are summed
+                    # in sparse output and overwritten in dense output
+                    if self.sparse and vocab[f] in row:
+                        row[vocab[f]] += dtype(v)
+                    else:
+                        row[vocab[f]] = dtype(v)
             data.append(row)
         result_matrix = sparse_list(data, size=len(vocab), dtype=dtype)
         if not self.sparse:
-- 
2.43.0


From c30dab7b1ae302e42ebcb97f127f11819bc7e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 09/49] fix: OneHotEncoder put the columns of the third and
 later features at the wrong offset

---
 pure_sklearn/preprocessing/_encoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/preprocessing/_encoders.py b/pure_sklearn/preprocessing/_encoders.py
index a6606b1..23d503f 100644
--- a/pure_sklearn/preprocessing/_encoders.py
+++ b/pure_sklearn/preprocessing/_encoders.py
@@ -130,7 +130,7 @@ class OneHotEncoderPure(_BaseEncoderPure):
         data = [
             dict(
                 [
-                    (n_values[i] + X_int[j][i], self.dtype(1))
+                    (feature_indices[i] + X_int[j][i], self.dtype(1))
                     for i in range(n_features)
                     if X_mask[j][i]
                 ]
-- 
2.43.0


From 67ba21f2feb25405c9030b8a05502363c4c67e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 10/49] fix: max norm ignored the sign of negative values

---
 pure_sklearn/preprocessing/_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 4eb49e0..28e1dfd 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -57,7 +57,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = [max(list(x.values()) + [0]) for x in X]
+            norms = [max(list(map(abs, x.values())) + [0]) for x in X]
         norms = _handle_zeros_in_scale(norms, copy=False)
         X_sparse = [
             {k: (v / float(norms[index])) for k, v in X[index].items()}
@@ -70,7 +70,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = apply_axis_2d(X, max, axis=1)
+            norms = apply_axis_2d(apply_2d(X, abs), max, axis=1)
         norms = _handle_zeros_in_scale(norms, copy=False)
         X = [
             list(map(lambda a: a / float(norms[index]), X[index]))
-- 
2.43.0


From b6f8d23ce5daa7d14254fcecf43c9228f33e60bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 11/49] fix: MissingIndicator compared counts of missing
 values, not feature indices, with the fitted features

---
 pure_sklearn/impute/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index a3e594c..001613e 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -70,7 +70,7 @@ class MissingIndicatorPure:
         if self.features == "all":
             features_indices = range(shape(X)[1])
         else:
-            features_indices = [a for a in n_missing if a != 0]
+            features_indices = [i for i, a in enumerate(n_missing) if a != 0]
         return imputer_mask, features_indices
 
 
-- 
2.43.0


From e4a6a05353fe17895b6acb08d45b7f9bbf5ff0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 12/49] fix: imputers failed on string columns and on None or
 string missing markers

---
 pure_sklearn/impute/_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index 001613e..4aaf8e7 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -8,9 +8,13 @@ from ..utils import shape, check_array, check_types, check_version
 from ..base import apply_2d, apply_axis_2d
 
 
+def _is_nan(val):
+    return isinstance(val, float) and isnan(val)
+
+
 def _to_impute(val, missing_values):
-    if isnan(missing_values):
-        return isnan(val)
+    if _is_nan(missing_values):
+        return _is_nan(val)
     else:
         return val == missing_values
 
@@ -146,7 +150,7 @@ class SimpleImputerPure:
             to_remove = [
                 index
                 for index in range(len(self.statistics_))
-                if isnan(self.statistics_[index])
+                if _is_nan(self.statistics_[index])
             ]
             if len(to_remove) > 0:
                 X = [[a[i] for i in range(len(a)) if i not in to_remove] for a in X]
-- 
2.43.0


From 79f5c8a55872d38f2e2f7d79d473bcff156af4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 13/49] fix: FeatureUnion could not apply transformer weights
 to sparse output

---
 pure_sklearn/pipeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 41196f8..16c7422 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -6,7 +6,7 @@ from operator import add, attrgetter
 from functools import update_wrapper, reduce
 from itertools import islice
 
-from .base import accumu, apply_2d
+from .base import accumu, apply_2d, apply_2d_sparse
 from .utils import (
     issparse,
     tosparse,
@@ -61,7 +61,8 @@ def _transform_one(transformer, X, y, weight, **fit_params):
     # if we have a weight for this transformer, multiply output
     if weight is None:
         return res
-    return apply_2d(res, lambda x: x * weight)
+    apply = apply_2d_sparse if issparse(res) else apply_2d
+    return apply(res, lambda x: x * weight)
 
 
 class PipelinePure:
-- 
2.43.0


From dc14fa6bf08311bb7c26a8cbad5b0c15d71a86eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 14/49] fix: pipelines and unions with skipped steps
 ('passthrough', 'drop', None) could not be converted

---
 pure_sklearn/pipeline.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 16c7422..ae1b44e 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -65,6 +65,13 @@ def _transform_one(transformer, X, y, weight, **fit_params):
     return apply(res, lambda x: x * weight)
 
 
+def _convert_step(step):
+    """ Convert a step, which may be skipped ('passthrough', 'drop' or None) """
+    if step is None or isinstance(step, str):
+        return step
+    return convert_estimator(step)
+
+
 class PipelinePure:
     """
     Pure python implementation of `Pipeline`.
@@ -77,7 +84,7 @@ class PipelinePure:
         check_version(estimator)
         self.steps = []
         for step in estimator.steps:
-            step_ = convert_estimator(step[1])
+            step_ = _convert_step(step[1])
             self.steps.append((step[0], step_))
         check_types(self)
 
@@ -164,7 +171,7 @@ class FeatureUnionPure:
         check_version(estimator)
         self.transformer_list = []
         for step in estimator.transformer_list:
-            step_ = convert_estimator(step[1])
+            step_ = _convert_step(step[1])
             self.transformer_list.append((step[0], step_))
 
         if hasattr(estimator, "transformer_weights"):
@@ -195,7 +202,7 @@ class FeatureUnionPure:
             for name, trans, weight in self._iter()
         ]
         if not Xs:
-            return [[0.0] * shape(X)[1]] * shape(X)[0]
+            return [[] for _ in X]
 
         if any(issparse(f) for f in Xs):
             Xs = [tosparse(X_) if not issparse(X_) else X_ for X_ in Xs]
-- 
2.43.0


From aa806d809b3e4f1eac207d19df2870bcc5f7875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 15/49] fix: sparse_list failed with an IndexError without
 rows, and for matrices without columns

---
 pure_sklearn/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index ff9ecde..ca18464 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -188,6 +188,8 @@ class sparse_list(list):
     """
 
     def __init__(self, A, size=None, dtype=None):
+        if len(A) == 0:
+            raise ValueError("Input 'A' must not be empty")
         if isinstance(A[0], dict):
             self.dtype = float if dtype is None else dtype
             self.size = size
@@ -196,7 +198,7 @@ class sparse_list(list):
         else:
             A = check_array(A)
             self.size = shape(A)[1]
-            self.dtype = type(A[0][0])
+            self.dtype = type(A[0][0]) if self.size > 0 else float
             for row in A:
                 self.append(
                     dict([(i, row[i]) for i in range(self.size) if row[i] != 0])
-- 
2.43.0


From b7b912d0f3f53c06c56b2c310e618efd15d95c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 16/49] fix: trees compared double precision values with
 thresholds, scikit-learn and xgboost compare single precision

---
 pure_sklearn/tree/_classes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index e389c50..0420823 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -4,12 +4,18 @@ Classes for tree based models
 
 import warnings
 
+from array import array
 from math import isnan
 
 from ..base import safe_log
 from ..utils import check_array, check_types, check_version
 
 
+def _to_float32(x):
+    """ Rounds to single precision, in which trees compare feature values """
+    return array("f", (x,))[0]
+
+
 class _DecisionTreeBase:
     """ Decision tree base class """
 
@@ -65,7 +71,7 @@ class _DecisionTreeBase:
             if self.children_left_[node_id] == self.children_right_[node_id]:
                 found_node = True
             else:
-                if left_equal(node_id) <= self.threshold_[node_id]:
+                if _to_float32(left_equal(node_id)) <= self.threshold_[node_id]:
                     node_id = self.children_left_[node_id]
                 else:
                     node_id = self.children_right_[node_id]
-- 
2.43.0


From 0f681238084df94edcf41d6d5a87684626d2d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 17/49] fix: multi-output trees silently predicted only their
 first output

---
 pure_sklearn/tree/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 0420823..b61188f 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -47,6 +47,8 @@ class _DecisionTreeBase:
         else:
             # sourced from sklearn decision tree
             check_version(estimator)
+            if estimator.n_outputs_ != 1:
+                raise ValueError("Multi-output trees are not supported")
             self.children_left_ = estimator.tree_.children_left.tolist()
             self.children_right_ = estimator.tree_.children_right.tolist()
             self.feature_ = estimator.tree_.feature.tolist()
-- 
2.43.0


From 6b882b3b4cf05a610fc98758a3a28bb4f6cfe2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 18/49] fix: xgboost feature indices were read from the last
 digit of the feature name

---
 pure_sklearn/tree/_classes.py    |  4 ++--
 pure_sklearn/xgboost/_classes.py | 13 +++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index b61188f..f43ae97 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -19,7 +19,7 @@ def _to_float32(x):
 class _DecisionTreeBase:
     """ Decision tree base class """
 
-    def __init__(self, estimator):
+    def __init__(self, estimator, feature_indices=None):
         if isinstance(estimator, dict):
             # sourced from xgboost booster object tree dictionary
             self.threshold_ = list(
@@ -40,7 +40,7 @@ class _DecisionTreeBase:
             )
             self.feature_ = list(
                 map(
-                    lambda x: -2 if x == "Leaf" else int(x.replace("f", "")[-1]),
+                    lambda x: -2 if x == "Leaf" else feature_indices[x],
                     estimator["Feature"],
                 )
             )
diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 3ed4c32..7019384 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -43,6 +43,14 @@ class XGBClassifierPure:
         self.estimators_ = self._build_estimators(estimator)
         check_types(self)
 
+    def _get_feature_indices(self, estimator):
+        """ Column index of every feature name used in the booster's trees """
+        booster = estimator.get_booster()
+        names = booster.feature_names
+        if names is None:
+            names = ["f{}".format(i) for i in range(booster.num_features())]
+        return {name: index for index, name in enumerate(names)}
+
     def _build_estimators(self, estimator):
         """ Convert booster to list of pure decision tree regressors """
         if not hasattr(estimator.get_booster(), "trees_to_dataframe"):
@@ -51,18 +59,19 @@ class XGBClassifierPure:
                 "which is not supported".format(MIN_VERSION)
             )
         tree_df = estimator.get_booster().trees_to_dataframe()
+        feature_indices = self._get_feature_indices(estimator)
         estimators_ = []
         idx = 0
         for est_id in range(self.n_estimators):
             if self.n_classes_ == 2:
                 tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
-                est_row_ = DecisionTreeRegressorPure(tree)
+                est_row_ = DecisionTreeRegressorPure(tree, feature_indices)
                 idx += 1
             else:
                 est_row_ = []
                 for cls_id in range(self.n_classes_):
                     tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
-                    est_row_.append(DecisionTreeRegressorPure(tree))
+                    est_row_.append(DecisionTreeRegressorPure(tree, feature_indices))
                     idx += 1
             estimators_.append(est_row_)
         return estimators_
-- 
2.43.0


From 1feae90e832b8163621d7193aa5faa7e82fa7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 19/49] fix: pruned xgboost trees were traversed through wrong
 node positions

---
 pure_sklearn/tree/_classes.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index f43ae97..fdfc27a 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -26,18 +26,10 @@ class _DecisionTreeBase:
                 map(lambda x: -2 if isnan(x) else x, estimator["Split"])
             )
             self.value_ = [[a] for a in estimator["Gain"]]
-            self.children_left_ = list(
-                map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
-                    estimator["Yes"],
-                )
-            )
-            self.children_right_ = list(
-                map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
-                    estimator["No"],
-                )
-            )
+            # node ids may have gaps (pruned trees)
+            node_index = {a: index for index, a in enumerate(estimator["ID"])}
+            self.children_left_ = [node_index.get(a, -1) for a in estimator["Yes"]]
+            self.children_right_ = [node_index.get(a, -1) for a in estimator["No"]]
             self.feature_ = list(
                 map(
                     lambda x: -2 if x == "Leaf" else feature_indices[x],
-- 
2.43.0


From 306edd3dcc19175346195672e0e5f00cbd4a5735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 20/49] fix: xgboost feature values equal to a split value went
 to the wrong child

---
 pure_sklearn/tree/_classes.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index fdfc27a..abf1d60 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -6,6 +6,7 @@ import warnings
 
 from array import array
 from math import isnan
+from struct import pack, unpack
 
 from ..base import safe_log
 from ..utils import check_array, check_types, check_version
@@ -16,14 +17,28 @@ def _to_float32(x):
     return array("f", (x,))[0]
 
 
+def _previous_float32(x):
+    """ Largest single precision number below x (rounded to single precision) """
+    x = _to_float32(x)
+    if x == 0:
+        return -(2.0 ** -149)
+    bits = unpack("<i", pack("<f", x))[0]
+    return unpack("<f", pack("<i", bits + (-1 if x > 0 else 1)))[0]
+
+
 class _DecisionTreeBase:
     """ Decision tree base class """
 
     def __init__(self, estimator, feature_indices=None):
         if isinstance(estimator, dict):
             # sourced from xgboost booster object tree dictionary
+            # xgboost goes left if value < split in single precision, that is, if
+            # value <= the largest single precision number below the split
             self.threshold_ = list(
-                map(lambda x: -2 if isnan(x) else x, estimator["Split"])
+                map(
+                    lambda x: -2 if isnan(x) else _previous_float32(x),
+                    estimator["Split"],
+                )
             )
             self.value_ = [[a] for a in estimator["Gain"]]
             # node ids may have gaps (pruned trees)
@@ -32,7 +47,7 @@ class _DecisionTreeBase:
             self.children_right_ = [node_index.get(a, -1) for a in estimator["No"]]
             self.feature_ = list(
                 map(
-                    lambda x: -2 if x == "Leaf" else feature_indices[x],
+                    lambda x: feature_indices.get(x, -2),  # -2 for "Leaf"
                     estimator["Feature"],
                 )
             )
-- 
2.43.0


From 0762015a3ade7be2ec8c92182ef0714cd9127b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 21/49] fix: missing values were not sent down xgboost's
 default direction

---
 pure_sklearn/tree/_classes.py    |  8 +++++++-
 pure_sklearn/xgboost/_classes.py | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index abf1d60..f460758 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -45,6 +45,9 @@ class _DecisionTreeBase:
             node_index = {a: index for index, a in enumerate(estimator["ID"])}
             self.children_left_ = [node_index.get(a, -1) for a in estimator["Yes"]]
             self.children_right_ = [node_index.get(a, -1) for a in estimator["No"]]
+            self.children_missing_ = [
+                node_index.get(a, -1) for a in estimator["Missing"]
+            ]
             self.feature_ = list(
                 map(
                     lambda x: feature_indices.get(x, -2),  # -2 for "Leaf"
@@ -80,7 +83,10 @@ class _DecisionTreeBase:
             if self.children_left_[node_id] == self.children_right_[node_id]:
                 found_node = True
             else:
-                if _to_float32(left_equal(node_id)) <= self.threshold_[node_id]:
+                value = _to_float32(left_equal(node_id))
+                if isnan(value) and hasattr(self, "children_missing_"):
+                    node_id = self.children_missing_[node_id]
+                elif value <= self.threshold_[node_id]:
                     node_id = self.children_left_[node_id]
                 else:
                     node_id = self.children_right_[node_id]
diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 7019384..5a75514 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -2,11 +2,12 @@
 Estimator classes for xgboost
 """
 
-from math import exp
+from math import isnan
 
-from ..base import sfmax, expit
+from ..base import sfmax, expit, apply_2d
 from ..utils import check_types, check_array
 from ..tree import DecisionTreeRegressorPure
+from ..tree._classes import _to_float32
 
 MIN_VERSION = "0.82"
 SUPPORTED_OBJ = ["binary:logistic", "multi:softprob"]
@@ -40,6 +41,8 @@ class XGBClassifierPure:
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_estimators = estimator.n_estimators
+        missing = getattr(estimator, "missing", None)
+        self.missing = float("NaN") if missing is None else _to_float32(missing)
         self.estimators_ = self._build_estimators(estimator)
         check_types(self)
 
@@ -100,6 +103,9 @@ class XGBClassifierPure:
 
     def predict_proba(self, X):
         X = check_array(X)
+        if not isnan(self.missing):
+            func = lambda x: float("NaN") if _to_float32(x) == self.missing else x
+            X = apply_2d(X, func)
         if self.objective == "multi:softprob":
             preds = self._predict(X)
             out = []
-- 
2.43.0


From c46e7ac731f7c8232b2117b1047101b644b04c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 22/49] fix: two-class xgboost models with the softprob
 objective could not predict

---
 pure_sklearn/xgboost/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 5a75514..66b2294 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -66,7 +66,7 @@ class XGBClassifierPure:
         estimators_ = []
         idx = 0
         for est_id in range(self.n_estimators):
-            if self.n_classes_ == 2:
+            if self.objective == "binary:logistic":
                 tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
                 est_row_ = DecisionTreeRegressorPure(tree, feature_indices)
                 idx += 1
-- 
2.43.0


From e0093d6829fa2cea14fe1e87d88d270fbbbb565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 23/49] fix: xgboost models stopped early or with parallel
 trees used the wrong trees, multi-output ones were not refused

---
 pure_sklearn/xgboost/_classes.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 66b2294..a0e312b 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -40,7 +40,9 @@ class XGBClassifierPure:
             self.booster = estimator.booster
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
-        self.n_estimators = estimator.n_estimators
+        n_groups = 1 if self.objective == "binary:logistic" else self.n_classes_
+        self.n_parallel_ = getattr(estimator, "num_parallel_tree", None) or 1
+        self.n_estimators = self._get_n_rounds(estimator, n_groups) * self.n_parallel_
         missing = getattr(estimator, "missing", None)
         self.missing = float("NaN") if missing is None else _to_float32(missing)
         self.estimators_ = self._build_estimators(estimator)
@@ -54,6 +56,21 @@ class XGBClassifierPure:
             names = ["f{}".format(i) for i in range(booster.num_features())]
         return {name: index for index, name in enumerate(names)}
 
+    def _get_n_rounds(self, estimator, n_groups):
+        """ Number of boosting rounds used in prediction """
+        booster = estimator.get_booster()
+        n_rounds = getattr(booster, "num_boosted_rounds", lambda: None)()
+        if n_rounds is None:
+            n_rounds = estimator.n_estimators
+        n_trees = len(booster.get_dump())
+        if n_trees != n_rounds * n_groups * self.n_parallel_:
+            raise ValueError(
+                "{} trees in {} rounds; multi-output models are not "
+                "supported".format(n_trees, n_rounds)
+            )
+        best_iteration = getattr(estimator, "best_iteration", None)
+        return n_rounds if best_iteration is None else best_iteration + 1
+
     def _build_estimators(self, estimator):
         """ Convert booster to list of pure decision tree regressors """
         if not hasattr(estimator.get_booster(), "trees_to_dataframe"):
@@ -64,18 +81,20 @@ class XGBClassifierPure:
         tree_df = estimator.get_booster().trees_to_dataframe()
         feature_indices = self._get_feature_indices(estimator)
         estimators_ = []
-        idx = 0
         for est_id in range(self.n_estimators):
+            # trees are stored by round, then by class, then by parallel tree
+            round_id, parallel_id = divmod(est_id, self.n_parallel_)
             if self.objective == "binary:logistic":
+                idx = est_id
                 tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
                 est_row_ = DecisionTreeRegressorPure(tree, feature_indices)
-                idx += 1
             else:
                 est_row_ = []
                 for cls_id in range(self.n_classes_):
+                    idx = round_id * self.n_classes_ + cls_id
+                    idx = idx * self.n_parallel_ + parallel_id
                     tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
                     est_row_.append(DecisionTreeRegressorPure(tree, feature_indices))
-                    idx += 1
             estimators_.append(est_row_)
         return estimators_
 
-- 
2.43.0


From 5e741e9f491a759fe658a06d121e11f28ea8f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 24/49] fix: base score of xgboost models was ignored

---
 pure_sklearn/xgboost/_classes.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index a0e312b..0883062 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -2,7 +2,9 @@
 Estimator classes for xgboost
 """
 
-from math import isnan
+import json
+
+from math import isnan, log
 
 from ..base import sfmax, expit, apply_2d
 from ..utils import check_types, check_array
@@ -45,6 +47,7 @@ class XGBClassifierPure:
         self.n_estimators = self._get_n_rounds(estimator, n_groups) * self.n_parallel_
         missing = getattr(estimator, "missing", None)
         self.missing = float("NaN") if missing is None else _to_float32(missing)
+        self.base_score_ = self._get_base_score(estimator)
         self.estimators_ = self._build_estimators(estimator)
         check_types(self)
 
@@ -56,6 +59,16 @@ class XGBClassifierPure:
             names = ["f{}".format(i) for i in range(booster.num_features())]
         return {name: index for index, name in enumerate(names)}
 
+    def _get_base_score(self, estimator):
+        """ Initial prediction (a probability) of all records """
+        booster = estimator.get_booster()
+        if hasattr(booster, "save_config"):
+            config = json.loads(booster.save_config())
+            base_score = config["learner"]["learner_model_param"]["base_score"]
+        else:
+            base_score = getattr(estimator, "base_score", 0.5)
+        return float(base_score)
+
     def _get_n_rounds(self, estimator, n_groups):
         """ Number of boosting rounds used in prediction """
         booster = estimator.get_booster()
@@ -111,7 +124,8 @@ class XGBClassifierPure:
 
     def _predict_binary(self, X):
         """ Raw sums of estimator predictions for each class for binary """
-        preds = [0] * len(X)
+        base_margin = log(self.base_score_ / (1.0 - self.base_score_))
+        preds = [base_margin] * len(X)
         for estimator in self.estimators_:
             preds = list(map(lambda x, y: x + y, preds, estimator.predict(X)))
         return preds
-- 
2.43.0


From 56bb565513d298582c7b78acabe6696da8c476de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 25/49] fix: xgboost models with categorical splits were
 converted to wrong trees

---
 pure_sklearn/xgboost/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 0883062..c03409d 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -92,6 +92,8 @@ class XGBClassifierPure:
                 "which is not supported".format(MIN_VERSION)
             )
         tree_df = estimator.get_booster().trees_to_dataframe()
+        if any(isinstance(a, list) for a in tree_df.get("Category", [])):
+            raise ValueError("Categorical splits are not supported")
         feature_indices = self._get_feature_indices(estimator)
         estimators_ = []
         for est_id in range(self.n_estimators):
-- 
2.43.0


From 627bf31653a94dc273ad6f986a2f755c1591acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 26/49] fix: softmax overflowed to NaN for large scores

---
 pure_sklearn/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index ee53d0a..11f6968 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -73,12 +73,15 @@ def expit(x):
 
 def sfmax(arr):
     """ Softmax function for 1-D list or a single sparse_list element """
+    # the maximum is subtracted to avoid overflow
     if isinstance(arr, dict):
-        expons = {k: safe_exp(v) for k, v in arr.items()}
+        max_val = max(arr.values(), default=0)
+        expons = {k: safe_exp(v - max_val) for k, v in arr.items()}
         denom = sum(expons.values())
         out = {k: (v / float(denom)) for k, v in expons.items()}
     else:
-        expons = list(map(safe_exp, arr))
+        max_val = max(arr, default=0)
+        expons = [safe_exp(x - max_val) for x in arr]
         out = list(map(lambda x: x / float(sum(expons)), expons))
     return out
 
-- 
2.43.0


From 794ab562082ab7bc57ebbdfeb6f8608f72b67de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 27/49] fix: naive Bayes probabilities were infinite or NaN
 when the joint likelihood underflows

---
 pure_sklearn/base.py        | 8 ++++++++
 pure_sklearn/naive_bayes.py | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 11f6968..a02fec5 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -86,6 +86,14 @@ def sfmax(arr):
     return out
 
 
+def logsumexp(arr):
+    """ Logarithm of the sum of exponentials of a 1-D list """
+    max_val = max(arr)
+    if max_val in (float("Inf"), -float("Inf")):
+        max_val = 0.0
+    return safe_log(sum(safe_exp(x - max_val) for x in arr)) + max_val
+
+
 def safe_log(x):
     """ Equivalent to numpy log with scalar input """
     if x == 0:
diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index 07b0cd6..b64e7ba 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -5,7 +5,7 @@ Naive Bayes
 from abc import abstractmethod
 from math import pi
 
-from .base import dot, transpose, safe_log, safe_exp
+from .base import dot, logsumexp, transpose, safe_log, safe_exp
 from .utils import check_array, check_types, check_version
 
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
@@ -33,7 +33,7 @@ class _BaseNBPure:
         """
         X = check_array(X, handle_sparse="error")
         jll = self._joint_log_likelihood(X)
-        log_prob_x = list(map(lambda a: safe_log(sum(map(safe_exp, a))), jll))
+        log_prob_x = list(map(logsumexp, jll))
         return [
             list(map(lambda a: a - log_prob_x[index], jll[index]))
             for index in range(len(jll))
-- 
2.43.0


From 82c1776beae6d23b21e839612adb348d87607377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 28/49] fix: multi-class gradient boosting probabilities
 overflowed for large raw predictions

---
 pure_sklearn/ensemble/_gb_losses.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 38501ca..0608e96 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -2,7 +2,16 @@
 Gradient boosting loss classes
 """
 
-from ..base import transpose, apply_axis_2d, apply_2d, safe_exp, safe_log, ravel, expit
+from ..base import (
+    transpose,
+    apply_axis_2d,
+    apply_2d,
+    safe_exp,
+    safe_log,
+    logsumexp,
+    ravel,
+    expit,
+)
 from ..utils import check_types, shape
 
 EPS = 1.1920929e-07
@@ -31,12 +40,10 @@ class _MultinomialDeviancePure:
         check_types(self)
 
     def _raw_prediction_to_proba(self, raw_predictions):
-        logsumexp = list(
-            map(safe_log, apply_axis_2d(apply_2d(raw_predictions, safe_exp), sum))
-        )
+        log_norm = apply_axis_2d(raw_predictions, logsumexp)
         return [
             [
-                safe_exp(raw_predictions[index][i] - logsumexp[index])
+                safe_exp(raw_predictions[index][i] - log_norm[index])
                 for i in range(self.n_classes_)
             ]
             for index in range(len(raw_predictions))
-- 
2.43.0


From b58d3e660468f8fc9aa6d24d7d4223fd6b11e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 29/49] fix: exponential loss probabilities doubled the sigmoid
 instead of its argument

---
 pure_sklearn/ensemble/_gb_losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 0608e96..c243735 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -111,7 +111,7 @@ class _ExponentialLossPure:
             if shape(raw_predictions)[1] == 1
             else raw_predictions
         )
-        func = lambda x: expit(x) * 2.0
+        func = lambda x: expit(x * 2.0)
         proba_1 = list(map(func, proba))
         proba = [[(1 - x) for x in proba_1], proba_1]
         return transpose(proba)
-- 
2.43.0


From 6d6fad3e930192a0ba29cb320787c57e2f6f8985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 30/49] fix: gradient boosting with exponential loss predicted
 the wrong class on a tie

---
 pure_sklearn/ensemble/_gb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index ef90d56..4e85360 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -88,5 +88,6 @@ class GradientBoostingClassifierPure:
         return apply_2d(self.predict_proba(X), safe_log)
 
     def predict(self, X):
-        proba = self.predict_proba(X)
-        return [self.classes_[a.index(max(a))] for a in proba]
+        raw_predictions = self._raw_predict(X)
+        decision = self.loss_._raw_prediction_to_decision(raw_predictions)
+        return [self.classes_[i] for i in decision]
-- 
2.43.0


From ea7301c4aea552529fa6c9a6f4150fe68771c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 31/49] fix: gradient boosting with zero initialisation could
 not be converted

---
 pure_sklearn/ensemble/_gb.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index 4e85360..da3daf6 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -34,7 +34,10 @@ class GradientBoostingClassifierPure:
                 est_arr_.append(est_)
             self.estimators_.append(est_arr_)
         if hasattr(estimator, "init_"):
-            self.init_ = convert_estimator(estimator.init_)
+            if isinstance(estimator.init_, str):  # 'zero'
+                self.init_ = estimator.init_
+            else:
+                self.init_ = convert_estimator(estimator.init_)
         self.loss = estimator.loss
         self.learning_rate = estimator.learning_rate
         self.n_features_ = estimator.n_features_
@@ -60,7 +63,7 @@ class GradientBoostingClassifierPure:
                 )
             )
         if self.init_ == "zero":
-            raw_predictions = [[0.0] * shape(X)[1]] * shape(X)[0]
+            raw_predictions = [[0.0] * len(self.estimators_[0]) for _ in X]
         else:
             raw_predictions = self.loss_.get_init_raw_predictions(X, self.init_)
         return raw_predictions
-- 
2.43.0


From a8e627ce0e17e1709ea2bcb4b9a809e533ee4091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 32/49] fix: DummyClassifier predicted the index instead of the
 class label and returned its own state

---
 pure_sklearn/dummy.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index 3697848..fddbe0a 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -3,7 +3,7 @@ Dummy classifier
 """
 
 from .base import apply_2d, safe_log
-from .utils import check_types, check_version
+from .utils import check_array, check_types, check_version
 
 __all__ = ["DummyClassifierPure"]
 
@@ -25,16 +25,22 @@ class DummyClassifierPure:
             self._strategy = estimator.strategy
         if self._strategy != "prior":
             raise ValueError("Strategy '{}' not supported".format(self._strategy))
+        if estimator.n_outputs_ != 1:
+            raise ValueError("Multi-output targets are not supported")
+        self.classes_ = estimator.classes_.tolist()
         self.class_prior_ = estimator.class_prior_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_outputs_ = estimator.n_outputs_
         check_types(self)
 
     def predict(self, X):
-        return [self.class_prior_.index(max(self.class_prior_))] * len(X)
+        X = check_array(X, handle_sparse="allow")
+        index = self.class_prior_.index(max(self.class_prior_))
+        return [self.classes_[index]] * len(X)
 
     def predict_proba(self, X):
-        return [self.class_prior_] * len(X)
+        X = check_array(X, handle_sparse="allow")
+        return [list(self.class_prior_) for _ in X]
 
     def predict_log_proba(self, X):
         return apply_2d(self.predict_proba(X), safe_log)
-- 
2.43.0


From 4dadf2955ab8336f4486a30992e3a0e688d53798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 33/49] fix: slicing several columns of a sparse_list kept the
 indices and the size of the unsliced columns

---
 pure_sklearn/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index a02fec5..8718c50 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -170,8 +170,8 @@ def slice_column(A, idx):
             return [a[idx] for a in A]
     if isinstance(idx, (list, tuple)):
         if issparse(A):
-            A_ = [{k: v for k, v in a.items() if k in idx} for a in A]
-            return sparse_list(A_, size=A.size, dtype=A.dtype)
+            A_ = [{j: a[i] for j, i in enumerate(idx) if i in a} for a in A]
+            return sparse_list(A_, size=len(idx), dtype=A.dtype)
         else:
             return [[a[i] for i in idx] for a in A]
 
-- 
2.43.0


From 204ba3b24c4320b76b23ae0ae9e511085e810a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 34/49] fix: bagging failed on sparse input

---
 pure_sklearn/ensemble/_bagging.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index f10446d..ee603b9 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -5,15 +5,15 @@ Bagging classifier
 from operator import add
 
 from ..map import MAPPING, convert_estimator
-from ..base import safe_log, operate_2d, apply_2d
-from ..utils import shape, check_types, check_version
+from ..base import safe_log, operate_2d, apply_2d, slice_column
+from ..utils import check_array, check_types, check_version
 
 
 def _feat_slice(X, feats):
     if feats is None:
         return X
     else:
-        return [[a[i] for i in feats] for a in X]
+        return slice_column(X, feats)
 
 
 class _BaseBaggingPure:
@@ -33,6 +33,7 @@ class _BaseBaggingPure:
         check_types(self)
 
     def predict_proba(self, X):
+        X = check_array(X, handle_sparse="allow")
         proba = self.estimators_[0].predict_proba(_feat_slice(X, self._get_feats(0)))
         for idx in range(len(self.estimators_))[1:]:
             proba_idx = self.estimators_[idx].predict_proba(
-- 
2.43.0


From 6bef9f097b9ab5abec7588e8b55863bc751831a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 35/49] fix: bagging added up probabilities of different
 classes when an estimator had not seen all of them

---
 pure_sklearn/ensemble/_bagging.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index ee603b9..82d4193 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -34,15 +34,23 @@ class _BaseBaggingPure:
 
     def predict_proba(self, X):
         X = check_array(X, handle_sparse="allow")
-        proba = self.estimators_[0].predict_proba(_feat_slice(X, self._get_feats(0)))
+        proba = self._predict_proba_one(0, X)
         for idx in range(len(self.estimators_))[1:]:
-            proba_idx = self.estimators_[idx].predict_proba(
-                _feat_slice(X, self._get_feats(idx))
-            )
-            proba = operate_2d(proba, proba_idx, add)
+            proba = operate_2d(proba, self._predict_proba_one(idx, X), add)
         func = lambda x: x / float(len(self.estimators_))
         return apply_2d(proba, func)
 
+    def _predict_proba_one(self, idx, X):
+        """ Probabilities of all classes predicted by one of the estimators """
+        est = self.estimators_[idx]
+        proba = est.predict_proba(_feat_slice(X, self._get_feats(idx)))
+        if len(est.classes_) == len(self.classes_):
+            return proba
+        # trained on a sample without some of the classes, its own
+        # classes are the indices of those that it has seen
+        rows = [dict(zip(est.classes_, row)) for row in proba]
+        return [[row.get(i, 0.0) for i in range(len(self.classes_))] for row in rows]
+
     def predict_log_proba(self, X):
         return apply_2d(self.predict_proba(X), safe_log)
 
-- 
2.43.0


From 887cd1760239bd49b2aadc2b6076c43f403e6501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 36/49] fix: fasttext models with word n-grams, subwords in
 supervised mode or labels not containing the prefix were converted wrongly

---
 pure_fasttext/FastText.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index fe2dcb4..bacfc77 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -62,11 +62,13 @@ class _FastText(object):
     """
 
     def __init__(self, model):
-        self.supervised_ = model.label in model.get_labels()[0]
-        if (model.maxn != 0) and not self.supervised_:
-            raise ValueError(
-                "Only maxn=0 is supported for unsupervised mode (no subwords support)."
-            )
+        self.supervised_ = model.f.getArgs().model.name == "supervised"
+        if model.maxn != 0:
+            raise ValueError("Only maxn=0 is supported (no subwords support).")
+        if self.supervised_ and model.wordNgrams > 1:
+            raise ValueError("Only wordNgrams=1 is supported for supervised mode.")
+        if model.is_quantized():
+            raise ValueError("Quantized models are not supported.")
         if self.supervised_ and (model.loss.name not in ("softmax")):
             raise Exception("Only 'softmax' loss is supported for supervised mode.")
         self.words_ = model.get_words()
-- 
2.43.0


From ec0c79d8e191564dbcfb913f4cff28b0a695db8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 37/49] fix: fasttext texts were split on all Unicode
 whitespace, and had an empty vector without any known word

---
 pure_fasttext/FastText.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index bacfc77..b73989d 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -2,6 +2,8 @@
 Base class for fasttext API implemented in pure python
 """
 
+import re
+
 from math import exp, sqrt
 from operator import mul
 
@@ -100,20 +102,27 @@ class _FastText(object):
             raise ValueError("predict processes one line at a time (remove '\\n')")
         text += "\n"
 
-        if self.supervised_:
+        raw_words = [self.get_word_vector(word) for word in self._known_words(text)]
+        if not self.supervised_:
             raw_words = [
-                self.get_word_vector(word)
-                for word in (text.split() + [EOS])
-                if word in self.words_
+                div_norm(vector) for vector in raw_words if l2_norm(vector) > 0
             ]
-            return average(raw_words)
+        return average(raw_words) if raw_words else [0.0] * self.dim_
+
+    def _known_words(self, text):
+        """
+        Words of text that are in the dictionary. Only ASCII whitespace (and the
+        null character in supervised mode) separates words, and in supervised
+        mode a line ends with, and is cut at, the end of sentence token.
+        """
+        if self.supervised_:
+            words = re.split("[ \n\r\t\v\f\0]+", text)
+            if EOS in words:
+                words = words[: words.index(EOS)]
+            words = words + [EOS]
         else:
-            raw_words = [
-                self.get_word_vector(word)
-                for word in text.split()
-                if word in self.words_
-            ]
-            return average(list(map(div_norm, raw_words)))
+            words = re.split("[ \n\r\t\v\f]+", text)
+        return [word for word in words if word in self.words_]
 
     def get_word_id(self, word):
         """
-- 
2.43.0


From 70f0ff867d96edf9d16cf572bc086ebe779be496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 38/49] fix: fasttext predict failed on lists of texts and
 returned wrong label counts for k=-1

---
 pure_fasttext/FastText.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index b73989d..0466ec9 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -142,12 +142,18 @@ class _FastText(object):
 
     def _predict(self, text, k=1, threshold=0.0):
         """ Guts of prediction method """
+        if k < 1 and k != -1:
+            raise ValueError("k needs to be 1 or higher!")
         A = self.get_sentence_vector(text)
+        if not self._known_words(text):
+            return ((), [])
         if self.loss_ == "softmax":
             preds = sfmax(dot(A, self.output_matrix_))
         else:
             raise ValueError("Predict is not supported for loss: {}".format(self.loss_))
         argsorted = [i for i in argsort(preds)[::-1] if preds[i] >= threshold]
+        if k == -1:  # all labels
+            k = len(argsorted)
         pred_labels = tuple([self.labels_[i] for i in argsorted[:k]])
         pred_scores = [preds[i] for i in argsorted[:k]]
         return (pred_labels, pred_scores)
@@ -161,12 +167,8 @@ class _FastText(object):
             raise ValueError("Model needs to be supervised for prediction!")
 
         if isinstance(text, list):
-            text = [entry for entry in text]
             all_labels = []
             all_probs = []
-            all_labels, all_probs = self.f.multilinePredict(
-                text, k, threshold, on_unicode_error
-            )
             for text_ in text:
                 labels, probs = self._predict(text_, k, threshold)
                 all_labels.append(labels)
-- 
2.43.0


From 9d394fc0bc6bc887b30780c6e38eb75b2aad0be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 39/49] fix: fasttext word vectors handed out the rows of the
 model's own matrix

---
 pure_fasttext/FastText.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 0466ec9..465f5a0 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -138,7 +138,7 @@ class _FastText(object):
         """
         Given an index, get the corresponding vector of the Input Matrix.
         """
-        return self.input_matrix_[ind]
+        return list(self.input_matrix_[ind])
 
     def _predict(self, text, k=1, threshold=0.0):
         """ Guts of prediction method """
-- 
2.43.0


From 32329bfe507ea5932d9d0ceb0c51dfed48a45df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 40/49] fix: fasttext models read from a file could not be
 converted

---
 pure_fasttext/FastText.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 465f5a0..95ae6f4 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -64,21 +64,22 @@ class _FastText(object):
     """
 
     def __init__(self, model):
-        self.supervised_ = model.f.getArgs().model.name == "supervised"
-        if model.maxn != 0:
+        args = model.f.getArgs()
+        self.supervised_ = args.model.name == "supervised"
+        if args.maxn != 0:
             raise ValueError("Only maxn=0 is supported (no subwords support).")
-        if self.supervised_ and model.wordNgrams > 1:
+        if self.supervised_ and args.wordNgrams > 1:
             raise ValueError("Only wordNgrams=1 is supported for supervised mode.")
         if model.is_quantized():
             raise ValueError("Quantized models are not supported.")
-        if self.supervised_ and (model.loss.name not in ("softmax")):
+        if self.supervised_ and (args.loss.name not in ("softmax")):
             raise Exception("Only 'softmax' loss is supported for supervised mode.")
         self.words_ = model.get_words()
         self.input_matrix_ = model.get_input_matrix().tolist()
         self.dim_ = model.get_dimension()
 
         if self.supervised_:
-            self.loss_ = model.loss.name
+            self.loss_ = args.loss.name
             self.labels_ = model.get_labels()
             self.output_matrix_ = model.get_output_matrix().tolist()
             self.is_quantized_ = model.is_quantized()
-- 
2.43.0


From 07246b6a20d82015da185ec0e2aa2ad75a562c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 41/49] fix: refuse input in which only a later row has the
 wrong number of features

---
 pure_sklearn/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index ca18464..e3bee0f 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -137,7 +137,10 @@ def shape(X):
         if issparse(X):
             return (len(X), X.size)
         else:
-            return (len(X), len(X[0]))
+            n_features = len(X[0])
+            if isinstance(X[0], list) and any(len(x) != n_features for x in X):
+                raise ValueError("All rows of 2-D input must have the same length")
+            return (len(X), n_features)
 
 
 def ndim(X):
-- 
2.43.0


From c953183a6eaee1b2021b5ad6edc31d304b6e3fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 42/49] fix: refuse an empty sparse_list like an empty list

---
 pure_sklearn/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index e3bee0f..3a79e72 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -109,11 +109,9 @@ def check_array(X, handle_sparse="error"):
     or optionally erroring on sparse input.
     """
     if issparse(X):
-        if handle_sparse == "allow":
-            return X
-        elif handle_sparse == "error":
+        if handle_sparse == "error":
             raise ValueError("Sparse input is not supported " "for this estimator")
-        else:
+        elif handle_sparse != "allow":
             raise ValueError(
                 "Invalid value for 'handle_sparse' "
                 "input. Acceptable values are 'allow' or 'error'"
-- 
2.43.0


From 9cb9663049d786a05be5c5de815127adea9895ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 43/49] fix: GaussianNB overflow on records far from the
 training data

---
 pure_sklearn/naive_bayes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index b64e7ba..21b454b 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -11,6 +11,11 @@ from .utils import check_array, check_types, check_version
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
 
 
+def _square(x):
+    # float ** int raises OverflowError instead of returning infinity
+    return x * x
+
+
 class _BaseNBPure:
     """ Base class for naive Bayes classifiers """
 
@@ -73,7 +78,7 @@ class GaussianNBPure(_BaseNBPure):
             jll = [
                 list(
                     map(
-                        lambda b: ((a[b] - self.theta_[i][b]) ** 2) / self.sigma_[i][b],
+                        lambda b: _square(a[b] - self.theta_[i][b]) / self.sigma_[i][b],
                         range(len(a)),
                     )
                 )
-- 
2.43.0


From 4459a29e7441b657946a839e35c2f4c23b66d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 44/49] fix: normalize_pure returned norm 1 for all-zero sparse
 rows

---
 pure_sklearn/preprocessing/_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 28e1dfd..2a8fe3f 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -58,9 +58,9 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
             norms = _row_norms(X)
         elif norm == "max":
             norms = [max(list(map(abs, x.values())) + [0]) for x in X]
-        norms = _handle_zeros_in_scale(norms, copy=False)
+        scale = _handle_zeros_in_scale(norms)
         X_sparse = [
-            {k: (v / float(norms[index])) for k, v in X[index].items()}
+            {k: (v / float(scale[index])) for k, v in X[index].items()}
             for index in range(len(X))
         ]
         X = sparse_list(X_sparse, X.size, X.dtype)
-- 
2.43.0


From c7ba787fa44b3cc55f0ff68a853cc98b7602dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 45/49] fix: CountVectorizer counts follow the configured dtype

---
 pure_sklearn/feature_extraction/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 7a838d5..40a5fd4 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -367,7 +367,7 @@ class CountVectorizerPure(_VectorizerMixinPure):
                         feature_counter[feature_idx] += 1
                 except KeyError:
                     continue
-            data.append(feature_counter)
+            data.append({k: self.dtype(v) for k, v in feature_counter.items()})
         X = sparse_list(data, size=len(vocabulary), dtype=self.dtype)
         return vocabulary, X
 
-- 
2.43.0


From 1c248f9702518b88f3480337846aa8edcb20861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 46/49] fix: gradient boosting clips initial probabilities at
 the exact single precision epsilon

---
 pure_sklearn/ensemble/_gb_losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index c243735..d44e1ce 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -14,7 +14,7 @@ from ..base import (
 )
 from ..utils import check_types, shape
 
-EPS = 1.1920929e-07
+EPS = 2.0 ** -23  # machine epsilon of single precision
 
 
 def _clip(a, a_min, a_max):
-- 
2.43.0


From 472223fa813fd83fb8b2ff0ca6853f2b830056af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 47/49] fix: ravel returned only the first column of a matrix

---
 pure_sklearn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 8718c50..04ac5dc 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -158,7 +158,7 @@ def ravel(A):
     """ Equivalent of numpy ravel on 2-D list """
     if issparse(A):
         raise ValueError("Sparse input not supported.")
-    return list(transpose(A)[0])
+    return [x for a in A for x in a]
 
 
 def slice_column(A, idx):
-- 
2.43.0


From 6baaf639db381540ce3a3992b2d87768f235ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 48/49] fix: split values of integer xgboost features were
 rounded, boolean features not converted

---
 pure_sklearn/xgboost/_classes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index c03409d..6962456 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -91,7 +91,14 @@ class XGBClassifierPure:
                 "This xgboost estimator was likely fitted with version < {} "
                 "which is not supported".format(MIN_VERSION)
             )
-        tree_df = estimator.get_booster().trees_to_dataframe()
+        # split values of features with an integer type are rounded, and those of
+        # boolean features omitted, in the dump of a booster that knows their types
+        booster = estimator.get_booster().copy()
+        if booster.feature_types is not None:
+            booster.feature_types = [
+                a if a == "c" else "float" for a in booster.feature_types
+            ]
+        tree_df = booster.trees_to_dataframe()
         if any(isinstance(a, list) for a in tree_df.get("Category", [])):
             raise ValueError("Categorical splits are not supported")
         feature_indices = self._get_feature_indices(estimator)
-- 
2.43.0


From 77f96469ec6a6a8070042829ded946c0a7726436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 49/49] fix: trees fitted on a sample without any weight could
 not predict probabilities

---
 pure_sklearn/tree/_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index f460758..d840a9a 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -105,7 +105,9 @@ class DecisionTreeClassifierPure(_DecisionTreeBase):
         return self.value_[node_id].index(max(self.value_[node_id]))
 
     def _get_proba_from_leaf_node(self, node_id):
-        return [a / sum(self.value_[node_id]) for a in self.value_[node_id]]
+        # like sklearn, a tree fitted on records without any weight predicts zeros
+        total = sum(self.value_[node_id]) or 1.0
+        return [a / total for a in self.value_[node_id]]
 
     def predict(self, X):
         X = check_array(X, handle_sparse="allow")
-- 
2.43.0


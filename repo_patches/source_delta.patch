From b4c911130199dc30e9e8eaf5ae3a02c9d6684e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 01/44] fix: accept the documented 'univariate_variable'
 transform type

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index fdeac01..0775712 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -485,7 +485,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _validate_transform_type(self, transform_type):
         transform_type = transform_type.lower()
-        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE,STR_MULTIVARIATE_VARIABLE]
+        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE_VARIABLE,STR_MULTIVARIATE_VARIABLE]
         if transform_type not in valid:
             raise ValueError('Wrong transform_type parameter value, got {}, valid ones are {}'.format(transform_type, valid))
         return transform_type
-- 
2.43.0


From 786bd7b7540b7ea587c55bd231c89463622c4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 02/44] fix: recognise 3D arrays of any numeric dtype in the
 automatic transform type

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 0775712..7d5d1c0 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -319,7 +319,7 @@ class R_DST(BaseEstimator, TransformerMixin):
                 return STR_MULTIVARIATE_VARIABLE
             else:
                 return STR_UNIVARIATE_VARIABLE
-        elif X.dtype == np.int_ or X.dtype == np.float_:
+        elif np.issubdtype(X.dtype, np.number):
             #Even length
             X = check_array_3D(X)
             if X.shape[1] > 1:
-- 
2.43.0


From 4a25f64fa506faf1300c7e64d149b3c9250d6210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 03/44] fix: keep the series lengths aligned with the
 subsampled series in fit

---
 convst/transformers/rdst.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 7d5d1c0..f11864a 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -206,6 +206,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             if self.min_len is None:
                 self.min_len = X_len.min()
         else:
+            X_len = None
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
             self.min_len = X.shape[2]
         
@@ -215,10 +216,14 @@ class R_DST(BaseEstimator, TransformerMixin):
             id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
             X = X[id_X]
             y = y[id_X]
+            if X_len is not None:
+                X_len = X_len[id_X]
         elif self.n_samples > 1.0:
             id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
             X = X[id_X]
             y = y[id_X]
+            if X_len is not None:
+                X_len = X_len[id_X]
         
         n_samples, n_features, _ = X.shape
         
-- 
2.43.0


From edbfcba2a35a18a8f5f200dbc31fb5e2f8b793b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 04/44] fix: never replace a too long shapelet length by a
 length of 1

---
 convst/transformers/rdst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index f11864a..89841bb 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -479,8 +479,8 @@ class R_DST(BaseEstimator, TransformerMixin):
             if n_timestamps < 3:
                 raise ValueError('Input data goint {} timestamps, at least 4 are requiered. Input format should be (n_samples, n_features, n_timestamps)'.format(n_timestamps))
             else:
-                warnings.warn("All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}".format(shapelet_lengths.max(), n_timestamps, n_timestamps//2))
-                shapelet_lengths[shapelet_lengths > n_timestamps] = n_timestamps//2
+                warnings.warn("All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}".format(shapelet_lengths.max(), n_timestamps, max(2, n_timestamps//2)))
+                shapelet_lengths[shapelet_lengths > n_timestamps] = max(2, n_timestamps//2)
 
 
         rng = check_random_state(self.random_state)
-- 
2.43.0


From d2dbe54a0fe459a27f897f80830c13252c7cc8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 05/44] fix: do not overwrite min_len, max_channels and
 shapelet_lengths in fit

A second fit reused the values found for the first dataset (and scaled
float shapelet lengths twice).
---
 convst/transformers/rdst.py | 39 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 89841bb..99bd91b 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -159,10 +159,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.max_channels=max_channels
         self.min_len=min_len
     
-    def _set_lengths(self):
+    def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
             if self.shapelet_lengths.dtype == float:
-                return np.floor(self.min_len*self.shapelet_lengths)
+                return np.floor(min_len*self.shapelet_lengths)
             else:
                 return self.shapelet_lengths
         else:
@@ -170,10 +170,10 @@ class R_DST(BaseEstimator, TransformerMixin):
             b1 = self.shapelet_lengths_bounds[1]
             
             if isinstance(b0, float):
-                b0 = int(b0*self.min_len)
+                b0 = int(b0*min_len)
             min_l = max(3,b0)
             if isinstance(b1, float):
-                b1 = int(b1*self.min_len)
+                b1 = int(b1*min_len)
             max_l = max(4,max(b0+1,b1+1))
             #4 to ensure range 3,4 -> 3
             lengths = np.asarray(list(range(min_l, max_l)))
@@ -203,12 +203,11 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            if self.min_len is None:
-                self.min_len = X_len.min()
+            min_len = X_len.min() if self.min_len is None else self.min_len
         else:
             X_len = None
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            self.min_len = X.shape[2]
+            min_len = X.shape[2]
         
         if self.n_samples is None:
             pass
@@ -227,32 +226,30 @@ class R_DST(BaseEstimator, TransformerMixin):
         
         n_samples, n_features, _ = X.shape
         
-        if self.max_channels is None:
-            self.max_channels = n_features
-        
+        max_channels = n_features if self.max_channels is None else self.max_channels
 
-        self.shapelet_lengths = self._set_lengths()
-        
-        shapelet_lengths, seed = self._check_params(self.min_len)
+        shapelet_lengths, seed = self._check_params(
+            self._set_lengths(min_len), min_len
+        )
         # Generate the shapelets
         if self.transform_type == STR_UNIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.min_len, X_len, self.prime_dilations
+                self.phase_invariance, min_len, X_len, self.prime_dilations
             )
         elif self.transform_type == STR_MULTIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.max_channels, self.min_len, X_len,
+                self.phase_invariance, max_channels, min_len, X_len,
                 self.prime_dilations
             )
         elif self.transform_type == STR_MUTLIVARIATE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha, 
-                self.phase_invariance, self.max_channels, self.prime_dilations
+                self.phase_invariance, max_channels, self.prime_dilations
             )
         elif self.transform_type == STR_UNIVARIATE:
             self.shapelets_ = self.fitter(
@@ -432,7 +429,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise ValueError("Samples got different number of features")
     
 
-    def _check_params(self, n_timestamps):
+    def _check_params(self, shapelet_lengths, n_timestamps):
         """
         Check the validity of the input parameters, notably that shapelet 
         length do not exceed time series lengths, and that we have at least 3
@@ -440,6 +437,8 @@ class R_DST(BaseEstimator, TransformerMixin):
 
         Parameters
         ----------
+        shapelet_lengths : array
+            The candidate lengths for the shapelets.
         n_timestamps : int
             Number of timestamps of input time series, if the input is of 
             variable length, it must be the minimum number of timestamps.
@@ -465,11 +464,11 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise TypeError("'n_shapelets' must be an integer (got {})."
                             .format(self.n_shapelets))
 
-        if not isinstance(self.shapelet_lengths, (list, tuple, np.ndarray)):
+        if not isinstance(shapelet_lengths, (list, tuple, np.ndarray)):
             raise TypeError("'shapelet_lengths' must be a list, a tuple or "
-                            "an array (got {}).".format(self.shapelet_lengths))
+                            "an array (got {}).".format(shapelet_lengths))
         
-        shapelet_lengths = check_array_1D(self.shapelet_lengths).astype(np.int64)
+        shapelet_lengths = check_array_1D(shapelet_lengths).astype(np.int64)
         if not np.all(1 < shapelet_lengths):
             raise ValueError("All the values in 'shapelet_lengths' must be "
                              "greater than 1, but got {} ({} < 1)."
-- 
2.43.0


From 525c1394b0e101e250406e73b00e6f40422b862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 06/44] fix: min_len may not exceed the shortest training
 series

Otherwise shapelets longer than some series are drawn and read outside them.
---
 convst/transformers/rdst.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 99bd91b..8eb8534 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -203,7 +203,9 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            min_len = X_len.min() if self.min_len is None else self.min_len
+            min_len = X_len.min()
+            if self.min_len is not None:
+                min_len = min(min_len, self.min_len)
         else:
             X_len = None
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-- 
2.43.0


From bebd828c5fc1077868ef62ee1e3dfe1148f48824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 07/44] fix: determine an automatic transform type again at
 each fit

The type found by the first fit was kept for later fits on other kinds of data.
---
 convst/transformers/rdst.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 8eb8534..65669cb 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -159,6 +159,16 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.max_channels=max_channels
         self.min_len=min_len
     
+    @property
+    def transform_type(self):
+        """The type asked for, or the one found by the last fit if it is 'auto'"""
+        return self._auto_type or self._transform_type
+
+    @transform_type.setter
+    def transform_type(self, value):
+        self._transform_type = value
+        self._auto_type = None
+
     def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
             if self.shapelet_lengths.dtype == float:
@@ -350,9 +360,9 @@ class R_DST(BaseEstimator, TransformerMixin):
         None.
 
         """
-        if self.transform_type == 'auto':
+        if self._transform_type == 'auto':
             _type = self._auto_class(X)
-            self.transform_type = _type
+            self._auto_type = _type
         else:
             _type = self.transform_type
             
-- 
2.43.0


From 7cec9e45de9c7fc1d96999e6a5555b7c060944ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 08/44] fix: keep random_state as given so that refitting
 reproduces the same result

---
 convst/transformers/rdst.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 65669cb..037ae9a 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -150,7 +150,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.proba_norm = check_is_numeric(proba_norm)
         self.percentiles = self._validate_percentiles(percentiles)
-        self.random_state = check_random_state(random_state)
+        check_random_state(random_state)
+        self.random_state = random_state
         if isinstance(n_jobs, bool):
             self.n_jobs=n_jobs
         else:
@@ -221,6 +222,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
             min_len = X.shape[2]
         
+        rng = check_random_state(self.random_state)
         if self.n_samples is None:
             pass
         elif self.n_samples < 1.0:
@@ -241,7 +243,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         max_channels = n_features if self.max_channels is None else self.max_channels
 
         shapelet_lengths, seed = self._check_params(
-            self._set_lengths(min_len), min_len
+            self._set_lengths(min_len), min_len, rng
         )
         # Generate the shapelets
         if self.transform_type == STR_UNIVARIATE_VARIABLE:
@@ -441,7 +443,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise ValueError("Samples got different number of features")
     
 
-    def _check_params(self, shapelet_lengths, n_timestamps):
+    def _check_params(self, shapelet_lengths, n_timestamps, rng):
         """
         Check the validity of the input parameters, notably that shapelet 
         length do not exceed time series lengths, and that we have at least 3
@@ -454,6 +456,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         n_timestamps : int
             Number of timestamps of input time series, if the input is of 
             variable length, it must be the minimum number of timestamps.
+        rng : RandomState
+            The generator from which the seed is drawn.
 
         Raises
         ------
@@ -494,7 +498,6 @@ class R_DST(BaseEstimator, TransformerMixin):
                 shapelet_lengths[shapelet_lengths > n_timestamps] = max(2, n_timestamps//2)
 
 
-        rng = check_random_state(self.random_state)
         seed = rng.randint(np.iinfo(np.uint32).max, dtype='u8')
 
         return shapelet_lengths, seed    
-- 
2.43.0


From 81610587e87effc3cc370fcf54d409220af0413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 09/44] fix: draw the subsample of fit from random_state

---
 convst/transformers/rdst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 037ae9a..84a47f6 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -226,13 +226,13 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.n_samples is None:
             pass
         elif self.n_samples < 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
+            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=rng)
             X = X[id_X]
             y = y[id_X]
             if X_len is not None:
                 X_len = X_len[id_X]
         elif self.n_samples > 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
+            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=rng)
             X = X[id_X]
             y = y[id_X]
             if X_len is not None:
-- 
2.43.0


From f595fdcc4cd549b3ec6ee9c4ae516235a3d027ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 10/44] fix: keep transform_type as given so that R_DST can be
 cloned

sklearn's clone requires constructors to keep the very object they are given.
---
 convst/transformers/rdst.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 84a47f6..5c4b5fb 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -131,7 +131,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         min_len=None,
         n_jobs=1
     ):
-        self.transform_type = self._validate_transform_type(transform_type)
+        self._validate_transform_type(transform_type)
+        self.transform_type = transform_type
         self.phase_invariance = check_is_boolean(phase_invariance)
         self.alpha = check_is_numeric(alpha)
         self.normalize_output = check_is_boolean(normalize_output)
@@ -162,13 +163,13 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     @property
     def transform_type(self):
-        """The type asked for, or the one found by the last fit if it is 'auto'"""
-        return self._auto_type or self._transform_type
+        """The type used by the last fit, or the one asked for before any fit"""
+        return self._fitted_type or self._transform_type
 
     @transform_type.setter
     def transform_type(self, value):
         self._transform_type = value
-        self._auto_type = None
+        self._fitted_type = None
 
     def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
@@ -362,11 +363,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         None.
 
         """
-        if self._transform_type == 'auto':
+        _type = self._validate_transform_type(self._transform_type)
+        if _type == 'auto':
             _type = self._auto_class(X)
-            self._auto_type = _type
-        else:
-            _type = self.transform_type
+        self._fitted_type = _type
             
         if _type == STR_UNIVARIATE:
             from convst.transformers._univariate_same_length import (
-- 
2.43.0


From 9c416390d897aa7225fbf324ec935e84367ca2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 11/44] fix: accept shapelet_lengths given as a list through
 set_params

---
 convst/transformers/rdst.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 5c4b5fb..9e3fe2b 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -173,10 +173,11 @@ class R_DST(BaseEstimator, TransformerMixin):
 
     def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
-            if self.shapelet_lengths.dtype == float:
-                return np.floor(min_len*self.shapelet_lengths)
+            shapelet_lengths = check_array_1D(self.shapelet_lengths)
+            if shapelet_lengths.dtype == float:
+                return np.floor(min_len*shapelet_lengths)
             else:
-                return self.shapelet_lengths
+                return shapelet_lengths
         else:
             b0 = self.shapelet_lengths_bounds[0]
             b1 = self.shapelet_lengths_bounds[1]
-- 
2.43.0


From c0b142740111da9ece826dd63eafdb5dd67d27d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 12/44] fix: apply the normalize_output option, which was
 ignored

---
 convst/classifiers/rdst_ensemble.py | 1 +
 convst/transformers/rdst.py         | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index eac8523..05eced3 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -235,6 +235,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         n_shapelets=self.n_shapelets_per_estimator,
                         alpha=self.shp_alpha,
                         n_samples=self.n_samples,
+                        normalize_output=self.normalize_output,
                         proba_norm=self.proba_norm[i],
                         n_jobs=False,
                         shapelet_lengths=self.shapelet_lengths,
diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 9e3fe2b..defbcd5 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -307,9 +307,14 @@ class R_DST(BaseEstimator, TransformerMixin):
             )
         else:
             X = check_array_3D(X).astype(np.float64)
+            X_len = np.full(X.shape[0], X.shape[2])
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance
             )
+        if self.normalize_output:
+            # Columns of each shapelet are min, argmin and shapelet occurrence
+            X_new[:, 1::3] /= X_len.reshape(-1, 1)
+            X_new[:, 2::3] /= X_len.reshape(-1, 1)
         return X_new
     
     def _auto_class(self, X):
-- 
2.43.0


From f7cac2b257a46db16c9ea6a709cea0712304f904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 13/44] fix: make shapelet generation reproducible whatever the
 number of threads

numba's random generator is local to each thread and seed() only concerns the
calling one, so the draws made in the parallel loop depended on the schedule.
---
 convst/transformers/_multivariate_same_length.py     | 3 +++
 convst/transformers/_multivariate_variable_length.py | 3 +++
 convst/transformers/_univariate_same_length.py       | 3 +++
 convst/transformers/_univariate_variable_length.py   | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/convst/transformers/_multivariate_same_length.py b/convst/transformers/_multivariate_same_length.py
index ba301be..4555eef 100644
--- a/convst/transformers/_multivariate_same_length.py
+++ b/convst/transformers/_multivariate_same_length.py
@@ -173,8 +173,11 @@ def M_SL_generate_shapelet(
     #same for channels
     a2 = concatenate((zeros(1, dtype=int64),cumsum(n_channels)))   
 
+    #Each thread has its own random generator: seed each iteration
+    seeds = choice(2**31-1, size=unique_dil.shape[0])
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
diff --git a/convst/transformers/_multivariate_variable_length.py b/convst/transformers/_multivariate_variable_length.py
index 025781c..5b9aa09 100644
--- a/convst/transformers/_multivariate_variable_length.py
+++ b/convst/transformers/_multivariate_variable_length.py
@@ -180,8 +180,11 @@ def M_VL_generate_shapelet(
     for i in prange(n_samples):
         mask_sampling[:,:,i,:,X_len[i]:] = 0
     
+    #Each thread has its own random generator: seed each iteration
+    seeds = choice(2**31-1, size=unique_dil.shape[0])
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
diff --git a/convst/transformers/_univariate_same_length.py b/convst/transformers/_univariate_same_length.py
index 292d6d5..5ecf5c1 100644
--- a/convst/transformers/_univariate_same_length.py
+++ b/convst/transformers/_univariate_same_length.py
@@ -152,8 +152,11 @@ def U_SL_generate_shapelet(
         (2,unique_dil.shape[0],n_samples,n_timestamps), dtype=bool_
     )
 
+    #Each thread has its own random generator: seed each iteration
+    seeds = choice(2**31-1, size=unique_dil.shape[0])
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
diff --git a/convst/transformers/_univariate_variable_length.py b/convst/transformers/_univariate_variable_length.py
index 13e5afd..d22fa05 100644
--- a/convst/transformers/_univariate_variable_length.py
+++ b/convst/transformers/_univariate_variable_length.py
@@ -167,8 +167,11 @@ def U_VL_generate_shapelet(
     for i in range(n_samples):
         mask_sampling[:,:,i,X_len[i]:] = False
     
+    #Each thread has its own random generator: seed each iteration
+    seeds = choice(2**31-1, size=unique_dil.shape[0])
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
-- 
2.43.0


From ce15542cb8aaa46fc6dd247582cb6b8c3a9bfdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 14/44] fix: do not lose the largest prime dilation to rounding

int64(2**log2(n)) is n-1 for many n.
---
 convst/transformers/_multivariate_same_length.py     | 7 ++++---
 convst/transformers/_multivariate_variable_length.py | 7 ++++---
 convst/transformers/_univariate_same_length.py       | 7 ++++---
 convst/transformers/_univariate_variable_length.py   | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/convst/transformers/_multivariate_same_length.py b/convst/transformers/_multivariate_same_length.py
index 4555eef..327edc7 100644
--- a/convst/transformers/_multivariate_same_length.py
+++ b/convst/transformers/_multivariate_same_length.py
@@ -66,14 +66,15 @@ def M_SL_init_random_shapelet_params(
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
 
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(max_dilations.max())
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
diff --git a/convst/transformers/_multivariate_variable_length.py b/convst/transformers/_multivariate_variable_length.py
index 5b9aa09..c904689 100644
--- a/convst/transformers/_multivariate_variable_length.py
+++ b/convst/transformers/_multivariate_variable_length.py
@@ -66,14 +66,15 @@ def M_VL_init_random_shapelet_params(
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
 
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(max_dilations.max())
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
diff --git a/convst/transformers/_univariate_same_length.py b/convst/transformers/_univariate_same_length.py
index 5ecf5c1..89afb53 100644
--- a/convst/transformers/_univariate_same_length.py
+++ b/convst/transformers/_univariate_same_length.py
@@ -59,14 +59,15 @@ def U_SL_init_random_shapelet_params(
     # Lengths of the shapelets
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(max_dilations.max())
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
diff --git a/convst/transformers/_univariate_variable_length.py b/convst/transformers/_univariate_variable_length.py
index d22fa05..13473d3 100644
--- a/convst/transformers/_univariate_variable_length.py
+++ b/convst/transformers/_univariate_variable_length.py
@@ -62,14 +62,15 @@ def U_VL_init_random_shapelet_params(
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
 
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(max_dilations.max())
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
-- 
2.43.0


From 61d856ad9d1e6987ed3fe1b4c53926dc3fb41b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 15/44] fix: make the ensemble weigh members by, and predict,
 the training labels

Class indexes were compared with, and returned as, labels.
---
 convst/classifiers/rdst_ensemble.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 05eced3..a2e4dec 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -46,12 +46,13 @@ class _internalRidgeCV(RidgeClassifierCV):
 
     def get_loocv_train_acc(self, y_train):
         if self.store_cv_values:
-            alpha_idx = np.where(self.alphas == self.alpha_)[0]
+            alpha_idx = np.where(self.alphas == self.alpha_)[0][0]
             cv_vals = self.cv_values_[:, :, alpha_idx]
             if cv_vals.shape[1] == 1:
-                return accuracy_score((cv_vals[:, 0] > 0).astype(int), y_train)
+                pred_idx = (cv_vals[:, 0] > 0).astype(int)
             else:
-                return accuracy_score(cv_vals.argmax(axis=1), y_train)
+                pred_idx = cv_vals.argmax(axis=1)
+            return accuracy_score(self.classes_[pred_idx], y_train)
         else:
             raise ValueError(
                 "LOOCV training accuracy is only available with store_cv_values to True"
@@ -260,6 +261,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         )
 
         self.models = models
+        self.classes_ = np.unique(y)
         self.model_weights = [
             model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w
             for model in models
@@ -276,4 +278,4 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         )
         # n_samples, n_models
         preds_proba = np.asarray(preds_proba).sum(axis=0)
-        return preds_proba.argmax(axis=1)
+        return self.classes_[preds_proba.argmax(axis=1)]
-- 
2.43.0


From b13172250fb3d8b578463909216349b83c87572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 16/44] fix: give each ensemble member its own seed

Members fitted concurrently shared one RandomState, so that the result depended
on the schedule, and on earlier fits.
---
 convst/classifiers/rdst_ensemble.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index a2e4dec..ec28393 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -179,7 +179,8 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         self.shapelet_lengths_bounds = shapelet_lengths_bounds
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.percentiles = percentiles
-        self.random_state = check_random_state(random_state)
+        check_random_state(random_state)
+        self.random_state = random_state
         self.max_channels = max_channels
         self.min_len = min_len
         self.lengths_bounds_reduction = lengths_bounds_reduction
@@ -226,6 +227,10 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
     def fit(self, X, y):
         self._manage_n_jobs()
         set_num_threads(self.n_jobs_rdst)
+        # Members are fitted concurrently: draw their seeds beforehand
+        seeds = check_random_state(self.random_state).randint(
+            np.iinfo(np.int32).max, size=len(self.input_transformers)
+        )
         models = Parallel(n_jobs=self.n_jobs, prefer=self.prefer, require=self.require)(
             delayed(_parallel_fit)(
                 X,
@@ -248,7 +253,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         percentiles=self.percentiles,
                         min_len=self.min_len,
                         max_channels=self.max_channels,
-                        random_state=self.random_state,
+                        random_state=seeds[i],
                     ),
                     _internalRidgeCV(
                         alphas=self.alphas_ridge,
-- 
2.43.0


From c39bcbefed3e32506eec30825505af482e3bdacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 17/44] fix: always resolve n_jobs to a usable number of
 threads

---
 convst/utils/checks_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/convst/utils/checks_utils.py b/convst/utils/checks_utils.py
index 1777bab..c79685d 100644
--- a/convst/utils/checks_utils.py
+++ b/convst/utils/checks_utils.py
@@ -42,8 +42,10 @@ def check_n_jobs(n_jobs):
         return 1
     elif not is_int(n_jobs):
         raise ValueError(f"`n_jobs` must be None or an integer, but found: {n_jobs}")
+    elif n_jobs == 0:
+        raise ValueError("`n_jobs` must be None or a non zero integer")
     elif n_jobs < 0:
-        return cpu_count() + n_jobs + 1
+        return max(1, cpu_count() + n_jobs + 1)
     else:
         return min(n_jobs,cpu_count())
 
-- 
2.43.0


From 0571991a890ac05252fb5efc59e575c64102c57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 18/44] fix: compare all channels when looking for the samples
 of a fold

---
 convst/utils/experiments_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/utils/experiments_utils.py b/convst/utils/experiments_utils.py
index 3f89a64..6969d48 100644
--- a/convst/utils/experiments_utils.py
+++ b/convst/utils/experiments_utils.py
@@ -157,8 +157,8 @@ class _sklearn_cv:
                 X_train, y_train, X_test, y_test = _resample(
                     X_train_0, y_train_0, X_test_0, y_test_0, i
                 )
-            idx_Train = [np.where((X == X_train[j]).all(axis=2))[0][0] for j in range(X_train.shape[0])]
-            idx_Test = [np.where((X == X_test[j]).all(axis=2))[0][0] for j in range(X_test.shape[0])]
+            idx_Train = [np.where((X == X_train[j]).all(axis=(1,2)))[0][0] for j in range(X_train.shape[0])]
+            idx_Test = [np.where((X == X_test[j]).all(axis=(1,2)))[0][0] for j in range(X_test.shape[0])]
             yield idx_Train, idx_Test
     
     def get_n_splits(self, X=None, y=None, groups=None):
-- 
2.43.0


From 39c1fcccfb38ff5b5c0d9a97964f7e0c17483ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 19/44] fix: pair performances by dataset in the Wilcoxon and
 Friedman tests

They were paired by order of the rows of the table.
---
 convst/utils/plot_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index ca5a03d..5f76a71 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -246,6 +246,8 @@ def _wilcoxon_holm(alpha=0.05, df_perf=None):
     Applies the wilcoxon signed rank test between each pair of algorithm and then use Holm
     to reject the null's hypothesis
     """
+    # performances are paired by dataset, whatever the order of the rows
+    df_perf = df_perf.sort_values(['classifier_name', 'dataset_name'])
     # count the number of tested datasets per classifier
     df_counts = pd.DataFrame({'count': df_perf.groupby(
         ['classifier_name']).size()}).reset_index()
-- 
2.43.0


From 76d8a85aee5838791a65d17dac46cee2c6b97c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 20/44] fix: support variable length input in Derivate and
 Periodigram

The ensemble, which uses them by default, claims to support it.
---
 convst/transformers/_input_transformers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index d2ef4b4..4c55a2f 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -89,6 +89,9 @@ class Derivate(BaseEstimator, TransformerMixin):
         return self
 
     def transform(self, X):
+        if isinstance(X, list) or X.dtype == np.object_:
+            # variable length
+            return [np.diff(x, n=self.order) for x in X]
         for i in range(self.order):
             X = np.diff(X)
         return X
@@ -109,6 +112,9 @@ class Periodigram(BaseEstimator, TransformerMixin):
         return self
 
     def transform(self, X):
+        if isinstance(X, list) or X.dtype == np.object_:
+            # variable length
+            return [self.transform(np.asarray([x], dtype=float))[0] for x in X]
         n_ts = periodogram(X[0, 0, :], detrend=False, window=self.window_type)[1].shape[
             0
         ]
-- 
2.43.0


From 78653b98c4e4a8b2385cc233cf6f03363dd97bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 21/44] fix: load whole variable length datasets

---
 convst/utils/dataset_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/convst/utils/dataset_utils.py b/convst/utils/dataset_utils.py
index ec11c0f..d8928c2 100644
--- a/convst/utils/dataset_utils.py
+++ b/convst/utils/dataset_utils.py
@@ -133,9 +133,11 @@ def load_UCR_UEA_dataset(name, normalize=False):
     X_train, X_test, y_train, y_test, _ = load_UCR_UEA_dataset_split(
         name, normalize=normalize
     )
-    return np.concatenate((X_train, X_test), axis=0), np.concatenate(
-        (y_train, y_test), axis=0
-    )
+    y = np.concatenate((y_train, y_test), axis=0)
+    if isinstance(X_train, list):
+        # variable length
+        return X_train + list(X_test), y
+    return np.concatenate((X_train, X_test), axis=0), y
 
 
 def return_all_dataset_names():
-- 
2.43.0


From 6425f9df344808883024bb00ff2b94e3bf6dea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 22/44] fix: make win, draw and loss counts sum to the number
 of datasets

Rounding made some differences equal to the margin count twice or not at all.
---
 convst/utils/plot_utils.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index 5f76a71..e6f010c 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -119,8 +119,8 @@ def pairwise_plot(
                 ax[i // ncols, i % ncols].set_ylabel(baseline)
             ax[i // ncols, i % ncols].set_xlabel(comp)
     
-            textstr = 'W - D - L\n{} - {} - {}'.format(sum(x+margin < y), sum(
-                (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
+            textstr = 'W - D - L\n{} - {} - {}'.format(
+                *_win_draw_loss(x, y, margin))
             ax[i // ncols, i % ncols].text(0.05, 0.95, textstr, transform=ax[i // ncols, i % ncols].transAxes, fontsize=14,
                                            verticalalignment='top', bbox=props)
         if nrows == 1:
@@ -158,8 +158,8 @@ def pairwise_plot(
                     ax.set_ylabel(baseline)
                 ax.set_xlabel(comp)
     
-                textstr = 'W - D - L\n{} - {} - {}'.format(sum(x+margin < y), sum(
-                    (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
+                textstr = 'W - D - L\n{} - {} - {}'.format(
+                *_win_draw_loss(x, y, margin))
                 ax.text(0.05, 0.95, textstr, transform=ax.transAxes, fontsize=14,
                                                verticalalignment='top', bbox=props)
             else:
@@ -196,12 +196,22 @@ def pairwise_plot(
                     ax[i % ncols].set_ylabel(baseline)
                 ax[i % ncols].set_xlabel(comp)
         
-                textstr = 'W - D - L\n{} - {} - {}'.format(sum(x+margin < y), sum(
-                    (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
+                textstr = 'W - D - L\n{} - {} - {}'.format(
+                *_win_draw_loss(x, y, margin))
                 ax[i % ncols].text(0.05, 0.95, textstr, transform=ax[i % ncols].transAxes, fontsize=14,
                                                verticalalignment='top', bbox=props)
     return fig
 
+def _win_draw_loss(x, y, margin):
+    """
+    Count on how many datasets y wins, draws and loses against x. Differences
+    within the margin are draws, so that the three always sum to the number of
+    datasets.
+    """
+    win = sum(x+margin < y)
+    loss = sum(y+margin < x)
+    return win, len(x) - win - loss, loss
+
 def draw_cd_diagram(df_perf=None, alpha=0.05, title=None, width=10, labels=False, path=None, highlight=None):
     """
     Draws the critical difference diagram given the list of pairwise classifiers that are
-- 
2.43.0


From eb8fbabe94f3426d0d63a2872bb85028696e55b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 23/44] fix: keep the n_jobs parameter of the ensemble as given
 in fit

---
 convst/classifiers/rdst_ensemble.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index ec28393..a13acf9 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -221,8 +221,8 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
 
     def _manage_n_jobs(self):
         total_jobs = check_n_jobs(self.n_jobs)
-        self.n_jobs = min(len(self.input_transformers), total_jobs)
-        self.n_jobs_rdst = max(1, total_jobs // self.n_jobs)
+        self.n_jobs_ensemble = min(len(self.input_transformers), total_jobs)
+        self.n_jobs_rdst = max(1, total_jobs // self.n_jobs_ensemble)
 
     def fit(self, X, y):
         self._manage_n_jobs()
@@ -231,7 +231,9 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         seeds = check_random_state(self.random_state).randint(
             np.iinfo(np.int32).max, size=len(self.input_transformers)
         )
-        models = Parallel(n_jobs=self.n_jobs, prefer=self.prefer, require=self.require)(
+        models = Parallel(
+            n_jobs=self.n_jobs_ensemble, prefer=self.prefer, require=self.require
+        )(
             delayed(_parallel_fit)(
                 X,
                 y,
@@ -276,7 +278,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
     def predict(self, X):
         check_is_fitted(self, ["model_weights"])
         preds_proba = Parallel(
-            n_jobs=self.n_jobs, prefer=self.prefer, require=self.require
+            n_jobs=self.n_jobs_ensemble, prefer=self.prefer, require=self.require
         )(
             delayed(_parallel_predict)(X, self.models[i], self.model_weights[i])
             for i in range(len(self.model_weights))
-- 
2.43.0


From c824f4389c1f69a811818e592ab983d1fa2ca271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:37 +0000
Subject: [PATCH 24/44] fix: clone R_DST with the transform type that was asked
 for, not the fitted one

---
 convst/transformers/rdst.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index defbcd5..d0f3ac4 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -171,6 +171,12 @@ class R_DST(BaseEstimator, TransformerMixin):
         self._transform_type = value
         self._fitted_type = None
 
+    def get_params(self, deep=True):
+        """The parameters, with the transform type that was asked for"""
+        params = super().get_params(deep=deep)
+        params['transform_type'] = self._transform_type
+        return params
+
     def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
             shapelet_lengths = check_array_1D(self.shapelet_lengths)
-- 
2.43.0


From c6e4d9400d5c8c580a9aae3752050241b9b063af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:02 +0000
Subject: [PATCH 25/44] fix: keep list parameters as given so that estimators
 can be cloned

---
 convst/classifiers/rdst_ensemble.py |  6 ++++--
 convst/transformers/rdst.py         | 15 +++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index a13acf9..d047349 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -185,14 +185,16 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         self.min_len = min_len
         self.lengths_bounds_reduction = lengths_bounds_reduction
         self.n_shapelets_per_estimator = check_is_numeric(n_shapelets_per_estimator)
-        self.shapelet_lengths = check_array_1D(shapelet_lengths)
+        check_array_1D(shapelet_lengths)
+        self.shapelet_lengths = shapelet_lengths
         self.n_jobs = n_jobs
 
         self.prefer = prefer
         self.require = require
         self.shp_alpha = check_is_numeric(shp_alpha)
         self.a_w = check_is_numeric(a_w)
-        self.proba_norm = check_array_1D(proba_norm)
+        check_array_1D(proba_norm)
+        self.proba_norm = proba_norm
 
         self.alphas_ridge = alphas_ridge
         self.class_weight = class_weight
diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index d0f3ac4..fc1fa50 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -138,7 +138,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.normalize_output = check_is_boolean(normalize_output)
         self.n_samples = check_is_numeric(n_samples) if n_samples is not None else n_samples
         self.n_shapelets = int(check_is_numeric(n_shapelets))
-        self.shapelet_lengths = check_array_1D(shapelet_lengths)
+        check_array_1D(shapelet_lengths)
+        self.shapelet_lengths = shapelet_lengths
         if shapelet_lengths_bounds is None:
             self.shapelet_lengths_bounds = None
         elif len(shapelet_lengths_bounds)==2:
@@ -150,7 +151,8 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise ValueError('lengths_bounds_reduction parameter should be in range [0,1[')
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.proba_norm = check_is_numeric(proba_norm)
-        self.percentiles = self._validate_percentiles(percentiles)
+        self._validate_percentiles(percentiles)
+        self.percentiles = percentiles
         check_random_state(random_state)
         self.random_state = random_state
         if isinstance(n_jobs, bool):
@@ -254,29 +256,30 @@ class R_DST(BaseEstimator, TransformerMixin):
             self._set_lengths(min_len), min_len, rng
         )
         # Generate the shapelets
+        p_min, p_max = self._validate_percentiles(self.percentiles)
         if self.transform_type == STR_UNIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
-                self.percentiles[0], self.percentiles[1], self.alpha,
+                p_min, p_max, self.alpha,
                 self.phase_invariance, min_len, X_len, self.prime_dilations
             )
         elif self.transform_type == STR_MULTIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
-                self.percentiles[0], self.percentiles[1], self.alpha,
+                p_min, p_max, self.alpha,
                 self.phase_invariance, max_channels, min_len, X_len,
                 self.prime_dilations
             )
         elif self.transform_type == STR_MUTLIVARIATE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
-                self.percentiles[0], self.percentiles[1], self.alpha, 
+                p_min, p_max, self.alpha, 
                 self.phase_invariance, max_channels, self.prime_dilations
             )
         elif self.transform_type == STR_UNIVARIATE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
-                self.percentiles[0], self.percentiles[1], self.alpha, 
+                p_min, p_max, self.alpha, 
                 self.phase_invariance, self.prime_dilations
             )
         else:
-- 
2.43.0


From d614665fcb0bd855722c55c337c7f1c851c0e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:47 +0000
Subject: [PATCH 26/44] fix: drop the constant features of the scalers despite
 rounding of their deviation

---
 convst/transformers/_input_transformers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index 4c55a2f..ed00b54 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -24,7 +24,7 @@ from convst import __USE_NUMBA_CACHE__, __USE_NUMBA_PARALLEL__
 
 class c_StandardScaler(StandardScaler):
     def fit(self, X, y=None):
-        self.usefull_atts = np.where(np.std(X, axis=0) != 0)[0]
+        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]
         return super().fit(X[:, self.usefull_atts], y=y)
 
     def transform(self, X):
@@ -33,7 +33,7 @@ class c_StandardScaler(StandardScaler):
 
 class c_MinMaxScaler(MinMaxScaler):
     def fit(self, X, y=None):
-        self.usefull_atts = np.where(np.std(X, axis=0) != 0)[0]
+        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]
         return super().fit(X[:, self.usefull_atts], y=y)
 
     def transform(self, X):
-- 
2.43.0


From 086dee32696ac54477e344701a1bac8d4065a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:48 +0000
Subject: [PATCH 27/44] fix: differentiate as floats so that small integer
 types do not wrap around

---
 convst/transformers/_input_transformers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index ed00b54..f8c996b 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -91,7 +91,8 @@ class Derivate(BaseEstimator, TransformerMixin):
     def transform(self, X):
         if isinstance(X, list) or X.dtype == np.object_:
             # variable length
-            return [np.diff(x, n=self.order) for x in X]
+            return [np.diff(np.asarray(x, dtype=np.float64), n=self.order) for x in X]
+        X = X.astype(np.float64)
         for i in range(self.order):
             X = np.diff(X)
         return X
-- 
2.43.0


From 899bce3613cb661945a7970408a0afd886f19884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:48 +0000
Subject: [PATCH 28/44] fix: use the order and bias of the Hankel transform to
 find its optimal offset

---
 convst/transformers/_input_transformers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index f8c996b..16be3ab 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -172,7 +172,7 @@ class FastHankelTransform(BaseEstimator, TransformerMixin):
                     X[i],
                     self.dln,
                     self.mu,
-                    offset=fhtoffset(self.dln, self.dln, self.bias),
+                    offset=fhtoffset(self.dln, self.mu, bias=self.bias),
                     bias=self.bias,
                 )
             else:
-- 
2.43.0


From 233c072b11e6d124dd79bffdd925c960bbe73964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:11 +0000
Subject: [PATCH 29/44] fix: np_all of a single row or column read outside of
 its input

---
 convst/utils/numba_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/convst/utils/numba_utils.py b/convst/utils/numba_utils.py
index e557a32..0a3519d 100644
--- a/convst/utils/numba_utils.py
+++ b/convst/utils/numba_utils.py
@@ -18,8 +18,8 @@ def np_all(x, axis=None):
     # ndarray.all with axis arguments for 2D arrays.
     @register_jitable
     def _np_all_axis0(arr):
-        out = np.logical_and(arr[0], arr[1])
-        for v in iter(arr[2:]):
+        out = np.ones(arr.shape[1], dtype=np.bool_)
+        for v in iter(arr):
             for idx, v_2 in enumerate(v):
                 out[idx] = np.logical_and(v_2, out[idx])
         return out
@@ -31,8 +31,8 @@ def np_all(x, axis=None):
 
     @register_jitable
     def _np_all_axis1(arr):
-        out = np.logical_and(arr[:, 0], arr[:, 1])
-        for idx, v in enumerate(arr[:, 2:]):
+        out = np.ones(arr.shape[0], dtype=np.bool_)
+        for idx, v in enumerate(arr):
             for v_2 in iter(v):
                 out[idx] = np.logical_and(v_2, out[idx])
         return out
-- 
2.43.0


From 039b827240f4b4d4ad8fcca670e08d00cc855042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:11 +0000
Subject: [PATCH 30/44] fix: make the cumulated probabilities of choice_log end
 at exactly one

---
 convst/transformers/_commons.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/_commons.py b/convst/transformers/_commons.py
index dfad845..eac981c 100644
--- a/convst/transformers/_commons.py
+++ b/convst/transformers/_commons.py
@@ -641,7 +641,8 @@ def is_prime(n):
 def choice_log(n_choice, n_sample):
     if n_choice > 1:
         P = array([1/2**log(i) for i in range(1,n_choice+1)])
-        P = P.cumsum()/P.sum()
+        P = P.cumsum()
+        P = P/P[-1]
         loc = zeros(n_sample, dtype=int64)
         for i in prange(n_sample):
             loc[i] = where(P>=rand())[0][0]
-- 
2.43.0


From 010a15a9abf0f6d8aaa0181d8d629aecb271c134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:31 +0000
Subject: [PATCH 31/44] fix: show the coefficients of the class asked for
 whatever the labels are

---
 convst/interpreters/rdst_interpreter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/convst/interpreters/rdst_interpreter.py b/convst/interpreters/rdst_interpreter.py
index 2205679..2a5c081 100644
--- a/convst/interpreters/rdst_interpreter.py
+++ b/convst/interpreters/rdst_interpreter.py
@@ -376,13 +376,15 @@ class RDST_Ridge_interpreter():
         self.rdst_interp = RDST_interpreter(self.RDST_Ridge.transformer)
         
     def _get_shp_importance(self, class_id):
-        coefs = self.RDST_Ridge.classifier['ridgeclassifiercv'].coef_
+        ridge = self.RDST_Ridge.classifier['ridgeclassifiercv']
+        coefs = ridge.coef_
+        i_class = np.where(ridge.classes_ == class_id)[0][0]
         n_classes = coefs.shape[0]
         
         if n_classes == 1:
             coefs = np.append(-coefs, coefs, axis=0)
         c_ = np.zeros(self.RDST_Ridge.transformer.shapelets_[1].shape[0]*3)
-        c_[self.RDST_Ridge.classifier['c_standardscaler'].usefull_atts] = coefs[class_id]
+        c_[self.RDST_Ridge.classifier['c_standardscaler'].usefull_atts] = coefs[i_class]
         return c_
     
     def visualize_best_shapelets_one_class(
-- 
2.43.0


From 4d64193c56cbe929da7e906a6d7af94ac621e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:31 +0000
Subject: [PATCH 32/44] fix: visualize the best shapelets on lists of variable
 length series

---
 convst/interpreters/rdst_interpreter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/convst/interpreters/rdst_interpreter.py b/convst/interpreters/rdst_interpreter.py
index 2a5c081..9de4cb7 100644
--- a/convst/interpreters/rdst_interpreter.py
+++ b/convst/interpreters/rdst_interpreter.py
@@ -457,11 +457,11 @@ class RDST_Ridge_interpreter():
             
             self.rdst_interp.plot(i_shp, ax=ax[1,1])
             
-            self.rdst_interp.plot_on_X(i_shp, X[i_example2,0], ax=ax[1,0], label='Other class')
-            self.rdst_interp.plot_on_X(i_shp, X[i_example,0], ax=ax[1,0], label='Class {}'.format(class_id))
+            self.rdst_interp.plot_on_X(i_shp, X[i_example2][0], ax=ax[1,0], label='Other class')
+            self.rdst_interp.plot_on_X(i_shp, X[i_example][0], ax=ax[1,0], label='Class {}'.format(class_id))
             
-            self.rdst_interp.plot_distance_vector(i_shp, X[i_example2,0], ax=ax[1,2], label='Other class')
-            self.rdst_interp.plot_distance_vector(i_shp, X[i_example,0], ax=ax[1,2], label='Class {}'.format(class_id))
+            self.rdst_interp.plot_distance_vector(i_shp, X[i_example2][0], ax=ax[1,2], label='Other class')
+            self.rdst_interp.plot_distance_vector(i_shp, X[i_example][0], ax=ax[1,2], label='Class {}'.format(class_id))
         
             ax[1,0].legend()
             plt.show()
-- 
2.43.0


From 5eb9607bcc9284f089d2b7fc770323bc98d0ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:31 +0000
Subject: [PATCH 33/44] fix: reject multivariate transformers in the
 interpreter with the intended error

---
 convst/interpreters/rdst_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/interpreters/rdst_interpreter.py b/convst/interpreters/rdst_interpreter.py
index 9de4cb7..2a5d59d 100644
--- a/convst/interpreters/rdst_interpreter.py
+++ b/convst/interpreters/rdst_interpreter.py
@@ -227,13 +227,13 @@ class RDST_interpreter():
             )
 
     def _get_params(self, id_shapelet):
-        values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
         phase = self.RDST.phase_invariance
         if self.RDST.transform_type in ['multivariate', 'multivariate_variable']:
             raise NotImplementedError(
                 'Interpreter is not yet implemented for multivariate data'
             )
         else:
+            values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
             length_ = lengths[id_shapelet]
             values_ = values[id_shapelet, :length_]
             dilation = dilations[id_shapelet]
-- 
2.43.0


From 9825db484f8d57d0388fd2b2b9e232601e70ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:12 +0000
Subject: [PATCH 34/44] fix: copy the variable length series given to each fold

---
 convst/utils/experiments_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/convst/utils/experiments_utils.py b/convst/utils/experiments_utils.py
index 6969d48..f855d72 100644
--- a/convst/utils/experiments_utils.py
+++ b/convst/utils/experiments_utils.py
@@ -85,9 +85,9 @@ def _resample(X_train, y_train, X_test, y_test, random_state):
             X_test = np.concatenate([X_test, test_instances],axis=0)
         else:
             for idx in train_indices:
-                X_train.append(all_data[idx])
+                X_train.append(np.copy(all_data[idx]))
             for idx in test_indices:
-                X_test.append(all_data[idx])
+                X_test.append(np.copy(all_data[idx]))
         train_labels = all_labels[train_indices]
         test_labels = all_labels[test_indices]
         y_train = np.concatenate([y_train, train_labels], axis=None)
@@ -120,8 +120,8 @@ class cross_validate_UCR_UEA:
                     X_test = np.copy(X_test_0)
                     
                 else:
-                    X_train = copy.copy(X_train_0)
-                    X_test = copy.copy(X_test_0)
+                    X_train = copy.deepcopy(X_train_0)
+                    X_test = copy.deepcopy(X_test_0)
                 y_train = np.copy(y_train_0)
                 y_test = np.copy(y_test_0)
             else:
-- 
2.43.0


From b8656a5700e178a6fabd80a200d0a8a92666e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 35/44] fix: load datasets of which only one part has variable
 length

---
 convst/utils/dataset_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convst/utils/dataset_utils.py b/convst/utils/dataset_utils.py
index d8928c2..516e3f3 100644
--- a/convst/utils/dataset_utils.py
+++ b/convst/utils/dataset_utils.py
@@ -92,6 +92,9 @@ def load_UCR_UEA_dataset_split(name, normalize=False):
     # Load datasets
     X_train, y_train = load_classification(name, return_metadata=False, split="train")
     X_test, y_test = load_classification(name, return_metadata=False, split="test")
+    if isinstance(X_train, list) != isinstance(X_test, list):
+        # only one of the parts has variable length
+        X_train, X_test = list(X_train), list(X_test)
 
     # Convert class labels to make sure they are between 0,n_classes
     le = LabelEncoder().fit(y_train)
-- 
2.43.0


From 59a3d12994967a540f2350adf07afc1c91e92a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 36/44] fix: pairwise plot with several rows of a single column
 failed

---
 convst/utils/plot_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index e6f010c..13433a3 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -84,6 +84,9 @@ def pairwise_plot(
     fig, ax = plt.subplots(
         ncols=ncols, nrows=nrows, figsize=figsize, sharey=True, dpi=dpi
     )
+    if nrows > 1:
+        # with one column, the axes are returned as a 1D array
+        ax = np.reshape(ax, (nrows, ncols))
     props = dict(boxstyle='round', facecolor='wheat', alpha=0.75)
     for i, comp in enumerate(competitors):
         if nrows > 1:
-- 
2.43.0


From 60fda2bec255afa0941a022bfdb5e95ccdf8ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 37/44] fix: nan p-values of models with identical performances
 broke Holm's procedure

---
 convst/utils/plot_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index 13433a3..578c320 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -294,6 +294,9 @@ def _wilcoxon_holm(alpha=0.05, df_perf=None):
                               ['accuracy'], dtype=np.float64)
             # calculate the p_value
             p_value = wilcoxon(perf_1, perf_2, zero_method='pratt')[1]
+            # without any difference between the performances, the test may give nan
+            if np.isnan(p_value):
+                p_value = 1.0
             # appen to the list
             p_values.append((classifier_1, classifier_2, p_value, False))
     # get the number of hypothesis
-- 
2.43.0


From 682dce5c80d89102bdfd4677d48c2cb9403a8b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 38/44] fix: reject series too short or with too few channels
 for the shapelets in transform

---
 convst/transformers/rdst.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index fc1fa50..7c0c2db 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -311,12 +311,14 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X).astype(np.float64)
+            self._check_shapelets_fit(X, X_len)
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance, X_len
             )
         else:
             X = check_array_3D(X).astype(np.float64)
             X_len = np.full(X.shape[0], X.shape[2])
+            self._check_shapelets_fit(X, X_len)
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance
             )
@@ -326,6 +328,37 @@ class R_DST(BaseEstimator, TransformerMixin):
             X_new[:, 2::3] /= X_len.reshape(-1, 1)
         return X_new
     
+    def _check_shapelets_fit(self, X, X_len):
+        """
+        Check that all the fitted shapelets can be applied to the input time
+        series, as the compiled functions do not check the bounds of arrays.
+
+        Parameters
+        ----------
+        X : array, shape=(n_samples, n_features, n_timestamps)
+            Input time series.
+        X_len : array, shape=(n_samples)
+            The true length of each input time series.
+
+        Raises
+        ------
+        ValueError
+            If a time series is shorter than the timestamps covered by a
+            shapelet, or if it has less features than used by a shapelet.
+
+        """
+        lengths, dilations = self.shapelets_[1], self.shapelets_[2]
+        if len(lengths) == 0:
+            return
+        if not self.phase_invariance:
+            span = np.max((lengths - 1) * dilations) + 1
+            if X_len.min() < span:
+                raise ValueError("Some shapelets cover {} timestamps, but got an input of {} timestamps.".format(span, X_len.min()))
+        if self.transform_type in [STR_MUTLIVARIATE, STR_MULTIVARIATE_VARIABLE]:
+            n_features = np.max(self.shapelets_[6]) + 1
+            if X.shape[1] < n_features:
+                raise ValueError("Some shapelets use {} features, but got an input of {} features.".format(n_features, X.shape[1]))
+
     def _auto_class(self, X):
         """
         Using the input time series data, find the type of transformation to 
-- 
2.43.0


From 5db2c9296d66bb062a7cc5fba04aaf9792b65a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 39/44] fix: reject labels that do not match the number of
 samples in fit, accept a list of labels

---
 convst/transformers/rdst.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 7c0c2db..04ac365 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -232,6 +232,10 @@ class R_DST(BaseEstimator, TransformerMixin):
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
             min_len = X.shape[2]
         
+        y = np.ravel(y)
+        if y.shape[0] != X.shape[0]:
+            raise ValueError("Got {} samples but {} labels.".format(X.shape[0], y.shape[0]))
+        
         rng = check_random_state(self.random_state)
         if self.n_samples is None:
             pass
-- 
2.43.0


From 1b8cb0b1b99299de25c7303bd8f0b011f1e6a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 40/44] fix: limit max_channels to the number of features of
 the data

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 04ac365..3bdf248 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -254,7 +254,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         
         n_samples, n_features, _ = X.shape
         
-        max_channels = n_features if self.max_channels is None else self.max_channels
+        max_channels = n_features if self.max_channels is None else min(self.max_channels, n_features)
 
         shapelet_lengths, seed = self._check_params(
             self._set_lengths(min_len), min_len, rng
-- 
2.43.0


From 854a55a5747c59dd52d13184ea721182b34bfeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 41/44] fix: reject percentiles outside of 0 to 100 or that are
 not a pair

---
 convst/transformers/rdst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 3bdf248..dadda73 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -563,8 +563,8 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _validate_percentiles(self, percentiles):
         percentiles = check_array_1D(percentiles)
-        if percentiles.dtype == int or percentiles.dtype == float :
-            if percentiles[0] <= percentiles[1]:
+        if percentiles.shape[0] == 2 and (percentiles.dtype == int or percentiles.dtype == float):
+            if 0 <= percentiles[0] <= percentiles[1] <= 100:
                 return percentiles
         raise ValueError('Wrong percetniles parameter value, got {}, expected a numerical array of size 2'.format(percentiles))
     
\ No newline at end of file
-- 
2.43.0


From addfeb3e24cdd6cf4c1672ba622d54c4dab88455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 42/44] fix: reject n_samples values that leave no sample

---
 convst/transformers/rdst.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index dadda73..e654a6f 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -253,6 +253,8 @@ class R_DST(BaseEstimator, TransformerMixin):
                 X_len = X_len[id_X]
         
         n_samples, n_features, _ = X.shape
+        if n_samples == 0:
+            raise ValueError("No sample left to extract shapelets with n_samples={}.".format(self.n_samples))
         
         max_channels = n_features if self.max_channels is None else min(self.max_channels, n_features)
 
-- 
2.43.0


From 60c03b1629c7c16e643da5b6523cb1b583388310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 43/44] fix: R_DST_Ensemble fits copies of its input
 transformers

The pipelines fitted the transformers given by the user in place: two ensembles
sharing one, or a refit which failed, changed the predictions of models fitted
earlier.
---
 convst/classifiers/rdst_ensemble.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index d047349..9bd58fd 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -13,7 +13,7 @@ from convst.utils.checks_utils import (
 from convst.transformers import R_DST
 from convst.transformers._input_transformers import Raw, Derivate, Periodigram
 from sklearn.utils.fixes import delayed
-from sklearn.base import BaseEstimator, ClassifierMixin
+from sklearn.base import BaseEstimator, ClassifierMixin, clone
 from sklearn.linear_model import RidgeClassifierCV
 from sklearn.utils.extmath import softmax
 from sklearn.metrics import accuracy_score, make_scorer
@@ -240,7 +240,8 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                 X,
                 y,
                 make_pipeline(
-                    self.input_transformers[i],
+                    # A pipeline fits its steps in place
+                    clone(self.input_transformers[i], safe=False),
                     R_DST(
                         n_shapelets=self.n_shapelets_per_estimator,
                         alpha=self.shp_alpha,
-- 
2.43.0


From f46ec4c691e7f8bc67de0f144f643bdf7e560efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 44/44] fix: R_DST.fit passes encoded labels to compiled code,
 which cannot take object arrays

---
 convst/transformers/rdst.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index e654a6f..a5f08f3 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -235,6 +235,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         y = np.ravel(y)
         if y.shape[0] != X.shape[0]:
             raise ValueError("Got {} samples but {} labels.".format(X.shape[0], y.shape[0]))
+        # Object arrays, such as strings, cannot be given to compiled code
+        y = np.unique(y, return_inverse=True)[1]
         
         rng = check_random_state(self.random_state)
         if self.n_samples is None:
-- 
2.43.0


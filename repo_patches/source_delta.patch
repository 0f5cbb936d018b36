From c22d31a6b4c3eb0e996bb218b40b14029ca03082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:05 +0000
Subject: [PATCH 01/42] fix: remove debug prints from the simulation base
 module

---
 quantfinlib/sim/_base.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index f5e78b7..f4b072b 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -87,8 +87,6 @@ def _triangular_index(T_n: int) -> int:
 
 
 def _make_cor_from_upper_tri(values: _SimFitDataType) -> np.ndarray:
-    print("_make_cor_from_upper_tri", values)
-
     values = _to_numpy(values)
 
     # We support 1 list, or a row/col from a matrix, as long as it's effectively 1d
@@ -202,7 +200,6 @@ class SimBase(ABC):
             else:
                 x0 = np.array([[self.x0_default]])
         elif isinstance(x0, str):
-            print(x0, is_fitted, need_datetime_index, label_start)
             if x0 == "first":
                 if not is_fitted:
                     raise ValueError('x0: "first" can not be used because the model is not fitted.')
-- 
2.43.0


From 2fd90c5df383d35d464d5ddf48c1c1486d8b1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:05 +0000
Subject: [PATCH 02/42] fix: recognise anchored frequencies (W-SUN, QE-DEC,
 YE-DEC) when deriving dt

---
 quantfinlib/_datatypes/timeseries.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index 4cf113d..cc046a5 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -196,4 +196,9 @@ def time_series_freq_to_duration(freq: str) -> Optional[float]:
 
     #  secs = pd.to_timedelta(pd.tseries.frequencies.to_offset("H")).total_seconds()
 
+    # Pandas adds an anchor suffix to inferred weekly, quarterly and yearly frequencies (e.g. 'W-SUN', 'QE-DEC').
+    # The anchor has no effect on the duration.
+    if isinstance(freq, str):
+        freq = freq.split("-")[0]
+
     return _time_series_freq_to_duration_map.get(freq, None)
-- 
2.43.0


From 5d54fb2dcbc1d02fcbf8127da89dfafffdae4f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:05 +0000
Subject: [PATCH 03/42] fix: derive dt from label_freq in path_sample as
 documented

---
 quantfinlib/sim/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index f4b072b..c9e1043 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -219,7 +219,11 @@ class SimBase(ABC):
 
         x0 = x0.reshape(1, -1)
 
-        # if dt not t is provided then align dt with the fitting()
+        # if dt is not provided then base it on label_freq
+        if dt is None and label_freq is not None:
+            dt = time_series_freq_to_duration(label_freq)
+
+        # if dt is still not known then align dt with the fitting()
         if dt is None:
             if is_fitted:
                 dt = self.fit_dt_
-- 
2.43.0


From 29173f26b1223198cd3c963f62412b26b8a9f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:05 +0000
Subject: [PATCH 04/42] fix: path_sample formatting without a datetime index,
 and include_x0=False for Series

---
 quantfinlib/sim/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index c9e1043..9e416d3 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -291,6 +291,7 @@ class SimBase(ABC):
             or (columns is not None)
         )
 
+        index = None
         if need_date_time_index:
             index = self._make_date_time_index(ans.shape[0], label_start, label_freq)
 
@@ -313,7 +314,7 @@ class SimBase(ABC):
             return ans
         else:
             if isinstance(ans, (pd.DataFrame, pd.Series)):
-                return ans.iloc[1:, :]
+                return ans.iloc[1:]
             else:
                 return ans[1:, :]
 
-- 
2.43.0


From 2f2c16fd3c76df35786322c05d0edb26cb29917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:05 +0000
Subject: [PATCH 05/42] fix: geometric Brownian motion drift estimate and
 likelihood use the same dynamics as the simulation

---
 quantfinlib/sim/_gbm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 2418148..afb2b65 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -179,7 +179,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
         # Mean and standard deviation of the changes
         self.vol = np.std(dx, axis=0, ddof=1, keepdims=True) / np.sqrt(dt)
-        self.drift = np.mean(dx, axis=0, keepdims=True) / dt
+        self.drift = np.mean(dx, axis=0, keepdims=True) / dt + 0.5 * self.vol**2
 
         # Optionally correlations if we have multiple columns
         if x.shape[1] > 1:
@@ -231,7 +231,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
     def _nll(self, x: np.ndarray, dt: float):
         dx = np.log(x[1:, ...] / x[:-1, ...])
-        mean_ = (self.drift - 0.5 * self.vol**2).flatten()
+        mean_ = ((self.drift - 0.5 * self.vol**2) * dt).flatten()
         std_ = (self.vol * dt**0.5).flatten()
 
         if self.cor is not None:
-- 
2.43.0


From f4d77bc8ec72fa222cbbe774cd805b267c513ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:51 +0000
Subject: [PATCH 06/42] fix: OrnsteinUhlenbeck.fit derives the parameters of
 every column, not only of the last

---
 quantfinlib/sim/_ou.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 188a7d8..27cb533 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -246,9 +246,11 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         # Compute OU params from slope, intercept, residual_std
         res_std = np.std(residuals, axis=0, ddof=1, keepdims=True)
 
-        self.mrr = -np.log(slope) / dt
-        self.mean = intercept / (1 - slope)
-        self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slope**2))
+        slopes = slopes.reshape(1, -1)
+        intercepts = intercepts.reshape(1, -1)
+        self.mrr = -np.log(slopes) / dt
+        self.mean = intercepts / (1 - slopes)
+        self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slopes**2))
 
         return self
 
-- 
2.43.0


From 255a7480616306c245edd592edb770e25f41b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:51 +0000
Subject: [PATCH 07/42] fix: multivariate OrnsteinUhlenbeck simulation with
 more than one path

---
 quantfinlib/sim/_ou.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 27cb533..a552f0e 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -282,7 +282,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         _fill_with_correlated_noise(dx, loc=mean_term, scale=scale_factor, L=self.L_, random_state=random_state)
 
         # Forward step trough OU
-        mrr_factor = mrr_factor.reshape(-1)
+        mrr_factor = np.tile(np.broadcast_to(mrr_factor, (1, num_variates)), num_paths).reshape(-1)
         for i in range(ans.shape[0] - 1):
             ans[i + 1, :] += ans[i, :] * mrr_factor
 
-- 
2.43.0


From 0ca346400161ddc9ff23aa6392141370de5bed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:51 +0000
Subject: [PATCH 08/42] fix: nll, aic and bic no longer overwrite the state of
 a fitted model

---
 quantfinlib/sim/_base.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 9e416d3..3ed49ec 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -131,6 +131,26 @@ class _DateTimeIndexInfo:
             self.freq_ = pd.infer_freq(x.index)
 
 
+def _values_and_dt(
+    x: Union[list, np.ndarray, pd.DataFrame, pd.Series], dt: Optional[Union[float, int]], freq: Optional[str]
+) -> Tuple[np.ndarray, float]:
+    r"""Convert x to a 2d array of values with time along the rows, and infer dt when it is not provided."""
+    values = _to_numpy(x)
+    if values.ndim == 1:
+        values = values.reshape(-1, 1)
+
+    # if dt is not provided then we need to infer it
+    if dt is None:
+        if freq is not None:
+            dt = time_series_freq_to_duration(freq)
+            if dt is None:
+                raise ValueError("Unable to determine dt based on freq", freq)
+        else:
+            dt = 1 / 252  # Default
+
+    return values, dt
+
+
 class SimBase(ABC):
     def __init__(self, *args, **kwargs):
         # Info about the data used for fitting
@@ -159,22 +179,12 @@ class SimBase(ABC):
         self.fit_column_names_ = _get_column_names(x)
         self.fit_index_ = _DateTimeIndexInfo(x)
 
-        values = _to_numpy(x)
-        if values.ndim == 1:
-            values = values.reshape(-1, 1)
+        values, dt = _values_and_dt(x, dt, self.fit_index_.freq_)
         self.fit_num_cols_ = values.shape[1]
         self.fit_x0_ = values[0, :].reshape(1, -1)
         self.fit_xn_ = values[-1, :].reshape(1, -1)
         self.fit_num_rows_ = values.shape[0]
 
-        # if dt is not provided then we need to infer it
-        if dt is None:
-            if self.fit_index_.freq_ is not None:
-                dt = time_series_freq_to_duration(self.fit_index_.freq_)
-                if dt is None:
-                    raise ValueError("Unable to determine dt based on freq", self.fit_index_.freq_)
-            else:
-                dt = 1 / 252  # Defualt
         self.fit_dt_ = dt
 
         return values, dt
@@ -437,7 +447,7 @@ class SimNllMixin:
             The computed negative log-likelihood.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = _values_and_dt(x, dt, _DateTimeIndexInfo(x).freq_)
         return self._nll(values, dt)
 
     def aic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
@@ -456,7 +466,7 @@ class SimNllMixin:
             The computed Akaike Information Criterion (AIC) value.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = _values_and_dt(x, dt, _DateTimeIndexInfo(x).freq_)
         num_samples = x.shape[0]
         return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
 
@@ -475,6 +485,6 @@ class SimNllMixin:
         bic : float
             The computed Bayesian Information Criterion (BIC) value.
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = _values_and_dt(x, dt, _DateTimeIndexInfo(x).freq_)
         num_samples = x.shape[0]
         return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
-- 
2.43.0


From cf25a615a7cdc821923819af0a0f9a89dd618521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:51 +0000
Subject: [PATCH 09/42] fix: AIC and BIC formulas and the number of model
 parameters

---
 quantfinlib/sim/_base.py |  7 +++----
 quantfinlib/sim/_bm.py   | 11 ++++++++---
 quantfinlib/sim/_gbm.py  | 11 ++++++++---
 quantfinlib/sim/_ou.py   | 11 ++++++++---
 4 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 3ed49ec..dc76290 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -467,8 +467,7 @@ class SimNllMixin:
 
         """
         values, dt = _values_and_dt(x, dt, _DateTimeIndexInfo(x).freq_)
-        num_samples = x.shape[0]
-        return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        return 2 * self.num_parameters_ + 2 * self._nll(values, dt)
 
     def bic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
         r"""Calculate the Bayesian Information Criterion (BIC) for a given path.
@@ -486,5 +485,5 @@ class SimNllMixin:
             The computed Bayesian Information Criterion (BIC) value.
         """
         values, dt = _values_and_dt(x, dt, _DateTimeIndexInfo(x).freq_)
-        num_samples = x.shape[0]
-        return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        num_samples = values.shape[0]
+        return np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt)
diff --git a/quantfinlib/sim/_bm.py b/quantfinlib/sim/_bm.py
index da188be..eda2f63 100644
--- a/quantfinlib/sim/_bm.py
+++ b/quantfinlib/sim/_bm.py
@@ -154,9 +154,7 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+        self._update_num_parameters()
 
     def __repr__(self) -> str:
         """Return a string representation of the BrownianMotion instance."""
@@ -164,6 +162,11 @@ class BrownianMotion(SimBase, SimNllMixin):
             f"BrownianMotion(drift={self.drift}, vol={self.vol}, cor={self.cor})"
         )
 
+    def _update_num_parameters(self):
+        self.num_parameters_ = self.drift.size + self.vol.size
+        if self.cor is not None:
+            self.num_parameters_ += len(self.cor) * (len(self.cor) - 1) // 2
+
     def _fit_np(self, x: np.ndarray, dt: float):
 
         # changes from one row to the next
@@ -186,6 +189,8 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self._update_num_parameters()
+
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index afb2b65..07600b8 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -162,9 +162,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+        self._update_num_parameters()
 
     def __repr__(self) -> str:
         """Return a string representation of the GeometriCBrownianMotion instance."""
@@ -172,6 +170,11 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             f"GeometricBrownianMotion(drift={self.drift}, vol={self.vol}, cor={self.cor})"
         )
 
+    def _update_num_parameters(self):
+        self.num_parameters_ = self.drift.size + self.vol.size
+        if self.cor is not None:
+            self.num_parameters_ += len(self.cor) * (len(self.cor) - 1) // 2
+
     def _fit_np(self, x: np.ndarray, dt: float):
 
         # changes from one row to the next
@@ -194,6 +197,8 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self._update_num_parameters()
+
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index a552f0e..71c53f7 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -184,9 +184,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.mean) + len(self.mrr) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.mean) * (len(self.mean) - 1) / 2
+        self._update_num_parameters()
 
     def __repr__(self):
         """Return a string representation of the OrnsteinUhlenbeck instance."""
@@ -194,6 +192,11 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
             f"OrnsteinUhlenbeck(mean={self.mean}, mrr={self.mrr}, vol={self.vol}, cor={self.cor})"
         )
 
+    def _update_num_parameters(self):
+        self.num_parameters_ = self.mean.size + self.mrr.size + self.vol.size
+        if self.cor is not None:
+            self.num_parameters_ += len(self.cor) * (len(self.cor) - 1) // 2
+
     def _fit_np(self, x: np.ndarray, dt: float):
 
         SLOPE_TOL = 1e-8
@@ -252,6 +255,8 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         self.mean = intercepts / (1 - slopes)
         self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slopes**2))
 
+        self._update_num_parameters()
+
         return self
 
     def _path_sample_np(
-- 
2.43.0


From 3a7e843842e5dcde9aaa6cd348a469f33894854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:17 +0000
Subject: [PATCH 10/42] fix: keep a copy of the first and last fitted values
 instead of a view on the caller's data

---
 quantfinlib/sim/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index dc76290..1497bbc 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -181,8 +181,8 @@ class SimBase(ABC):
 
         values, dt = _values_and_dt(x, dt, self.fit_index_.freq_)
         self.fit_num_cols_ = values.shape[1]
-        self.fit_x0_ = values[0, :].reshape(1, -1)
-        self.fit_xn_ = values[-1, :].reshape(1, -1)
+        self.fit_x0_ = values[0, :].reshape(1, -1).copy()
+        self.fit_xn_ = values[-1, :].reshape(1, -1).copy()
         self.fit_num_rows_ = values.shape[0]
 
         self.fit_dt_ = dt
-- 
2.43.0


From ecf6e6a3ea7f4acf5f2c68446a7d28bad50e3cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:17 +0000
Subject: [PATCH 11/42] fix: index groups by position when they are provided to
 a splitter as a Series

---
 quantfinlib/train_test_split/_base.py        | 9 +++++++++
 quantfinlib/train_test_split/kfoldpe.py      | 3 ++-
 quantfinlib/train_test_split/walk_forward.py | 4 ++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/train_test_split/_base.py b/quantfinlib/train_test_split/_base.py
index 2754fc7..a1c4ca5 100644
--- a/quantfinlib/train_test_split/_base.py
+++ b/quantfinlib/train_test_split/_base.py
@@ -131,6 +131,15 @@ def _embargo(
     return train_index
 
 
+def _positional_groups(groups: GroupType) -> GroupType:
+    """Convert groups that are provided as a Series to a form that is indexed by position instead of by label."""
+    if not isinstance(groups, pd.Series):
+        return groups
+    if pd.api.types.is_datetime64_any_dtype(groups):
+        return pd.DatetimeIndex(groups)
+    return groups.to_numpy()
+
+
 class BaseCV(ABC):
     """Base class for cross-validation splitters."""
 
diff --git a/quantfinlib/train_test_split/kfoldpe.py b/quantfinlib/train_test_split/kfoldpe.py
index cd48d6d..a0c24f5 100644
--- a/quantfinlib/train_test_split/kfoldpe.py
+++ b/quantfinlib/train_test_split/kfoldpe.py
@@ -6,7 +6,7 @@ from typing import Generator, Optional, Tuple
 import numpy as np
 import pandas as pd
 
-from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo
+from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo, _positional_groups
 from quantfinlib.train_test_split._dtypes import BoundPerFoldType, GroupType, IndexType, XType, YType
 
 
@@ -138,6 +138,7 @@ class TimeAwareKFold(BaseCV):
             n_purge = self.n_purge
         if groups is None:
             groups = np.arange(X.shape[0])
+        groups = _positional_groups(groups)
         indices = np.arange(X.shape[0])
         assert len(groups) == len(indices), "Groups and indices must have the same length."
         test_indices_per_fold = np.array_split(indices, self.n_folds)
diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index a9c6311..5b07b1b 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -7,7 +7,7 @@ import warnings
 import numpy as np
 import pandas as pd
 
-from quantfinlib.train_test_split._base import BaseCV, _embargo
+from quantfinlib.train_test_split._base import BaseCV, _embargo, _positional_groups
 from quantfinlib.train_test_split._dtypes import GroupType, IndexType, XType, YType
 
 
@@ -109,7 +109,7 @@ class WalkForward(BaseCV):
         super().split(X, y, groups)
         n_samples = X.shape[0]
         indices = np.arange(n_samples)
-        groups = groups if groups is not None else np.arange(n_samples)
+        groups = _positional_groups(groups) if groups is not None else np.arange(n_samples)
         time_unit = pd.Timedelta(1, unit=self.freq) if self.freq is not None else 1
 
         # Calculate the boundaries of the training set
-- 
2.43.0


From 061262cc6625eb0df349159aa8b01c95e7d7930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:17 +0000
Subject: [PATCH 12/42] fix: WalkForward train and test sets no longer overlap
 or skip data when groups have gaps

---
 quantfinlib/train_test_split/walk_forward.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index 5b07b1b..adf2cb5 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -115,13 +115,15 @@ class WalkForward(BaseCV):
         # Calculate the boundaries of the training set
         train_start_group = groups[0]
         train_end_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="left")
+            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right") - 1
         ]
         # Calculate the boundaries of the test set
         test_start_group = groups[
             np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right")
         ]
-        test_end_group = groups[np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="left")]
+        test_end_group = groups[
+            np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="right") - 1
+        ]
         while train_end_group < groups[-1]:
             train_index = indices[(groups >= train_start_group) & (groups <= train_end_group)]
             test_index = indices[(groups >= test_start_group) & (groups <= test_end_group)]
@@ -141,13 +143,14 @@ class WalkForward(BaseCV):
             if test_end_group >= groups[-1]:
                 self._finalized_splits = True
                 break
-            # update the boundaries of the training and test sets
+            # update the boundaries of the training and test sets: train up to the end of the current test set,
+            # and test on the groups that come right after it.
+            train_end_group = test_end_group
             if self.split_type == "rolling":
-                train_start_group = train_start_group + self.test_window
-            train_end_group = groups[np.searchsorted(groups, train_end_group + self.test_window, side="left")]
-            test_start_group = groups[np.searchsorted(groups, test_start_group + self.test_window, side="left")]
+                train_start_group = train_end_group - self.train_window + time_unit
+            test_start_group = groups[np.searchsorted(groups, train_end_group, side="right")]
             test_end_group = groups[
-                np.searchsorted(groups, min(test_end_group + self.test_window, groups[-1]), side="left")
+                np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="right") - 1
             ]
 
 
-- 
2.43.0


From 030f30a80f6141f69549bbf3c53a5876834b5f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:18 +0000
Subject: [PATCH 13/42] fix: WalkForward.get_n_splits counts the splits of one
 pass, also after repeated calls to split

---
 quantfinlib/train_test_split/walk_forward.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index adf2cb5..115b013 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -111,6 +111,7 @@ class WalkForward(BaseCV):
         indices = np.arange(n_samples)
         groups = _positional_groups(groups) if groups is not None else np.arange(n_samples)
         time_unit = pd.Timedelta(1, unit=self.freq) if self.freq is not None else 1
+        n_splits = 0
 
         # Calculate the boundaries of the training set
         train_start_group = groups[0]
@@ -138,9 +139,10 @@ class WalkForward(BaseCV):
                     n_embargo=self.n_embargo,
                 )
             yield train_index, test_index
-            self.n_splits += 1
+            n_splits += 1
             # if the current end group of the test set is the last group, then we have reached the end of the data
             if test_end_group >= groups[-1]:
+                self.n_splits = n_splits
                 self._finalized_splits = True
                 break
             # update the boundaries of the training and test sets: train up to the end of the current test set,
-- 
2.43.0


From 50e15d6bde12126bf67e55bbef6478d4574feeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 14/42] fix: number of bins for (almost) perfectly
 anti-correlated variables no longer explodes

---
 quantfinlib/distance/information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/distance/information.py b/quantfinlib/distance/information.py
index b468fb5..06783c7 100644
--- a/quantfinlib/distance/information.py
+++ b/quantfinlib/distance/information.py
@@ -16,7 +16,7 @@ def _get_nb_bins_from_xy(x: np.ndarray, y: Optional[np.ndarray] = None) -> int:
         return _get_optimal_nb_bins(x.shape[0], None)
     else:
         corr = np.corrcoef(x, y)[0, 1]
-        if corr == 1 or abs(corr - 1) < 1e-5:
+        if abs(abs(corr) - 1) < 1e-5:
             return _get_optimal_nb_bins(x.shape[0], None)
         else:
             return _get_optimal_nb_bins(x.shape[0], corr=np.corrcoef(x, y)[0, 1])
-- 
2.43.0


From fb7078ee6b01537bcbf5b5dfdc25874b8522c3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 15/42] fix: accept correlation matrices with rounding errors
 in the diagonal or the symmetry

---
 quantfinlib/distance/correlation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/distance/correlation.py b/quantfinlib/distance/correlation.py
index b6232e4..915ea73 100644
--- a/quantfinlib/distance/correlation.py
+++ b/quantfinlib/distance/correlation.py
@@ -4,6 +4,7 @@ from typing import Callable, Union
 from functools import partial
 
 import numpy as np
+import pandas as pd
 
 
 def _fix_diagonal_dist(dist: np.ndarray) -> np.ndarray:
@@ -23,7 +24,7 @@ def _validate_correlation_matrix(corr: np.ndarray) -> None:
     assert corr.ndim == 2, "Input must be a 2D matrix"
     assert corr.shape[0] == corr.shape[1], "Input must be a square matrix"
     assert np.allclose(corr, corr.T), "Correlation matrix must be symmetric"
-    assert np.all(np.diag(corr) == 1), "Diagonal elements of a correlation matrix must be 1"
+    assert np.allclose(np.diag(corr), 1), "Diagonal elements of a correlation matrix must be 1"
 
 
 def _convert_correlation_to_distance(
@@ -35,7 +36,13 @@ def _convert_correlation_to_distance(
     dist = conversion_function(corr)
     dist = _clip_values(dist, 0.0, 1.0)
     if isinstance(corr, np.ndarray):
-        return _fix_diagonal_dist(dist)
+        # Remove the asymmetry caused by rounding errors in the correlations
+        return _fix_diagonal_dist((dist + dist.T) / 2.0)
+    if isinstance(corr, pd.DataFrame):
+        values = dist.to_numpy()
+        return pd.DataFrame(
+            _fix_diagonal_dist((values + values.T) / 2.0), index=dist.index, columns=dist.columns
+        )
     return dist
 
 
-- 
2.43.0


From ce2dacdf3fba0de7d214f602fd21084b064f06a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 16/42] fix: gap_statistic no longer reseeds the global numpy
 random generator

---
 quantfinlib/clustering/metrics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantfinlib/clustering/metrics.py b/quantfinlib/clustering/metrics.py
index 3eda08c..be76dd3 100644
--- a/quantfinlib/clustering/metrics.py
+++ b/quantfinlib/clustering/metrics.py
@@ -70,8 +70,7 @@ def gap_statistic(
         seed = 0
     for b in range(nb):
         # Create a reference distance matrix by drawing random samples from the distance matrix
-        np.random.seed(seed + b)
-        dist_ref = np.random.uniform(0, np.max(dist), size=(n, n))
+        dist_ref = np.random.RandomState(seed + b).uniform(0, np.max(dist), size=(n, n))
         # Make the reference distance matrix symmetric
         dist_ref = np.triu(dist_ref) + np.triu(dist_ref).T
         # Make sure the diagonal elements of reference distance matrix are zero
-- 
2.43.0


From eb673f62fd2b19e475c080d855a1adb874d34b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 17/42] fix: sign of the gamma term in the Corwin-Schultz
 spread

---
 quantfinlib/feature/micro_structure/_price_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index 5a77cb7..1922423 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -457,7 +457,7 @@ def _get_alpha(beta: pd.Series, gamma: pd.Series) -> pd.Series:
     """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
     den = 3 - 2.0 * 2**0.5
     alpha = (2**0.5 - 1) * (beta**0.5) / den
-    alpha -= -((gamma / den) ** 0.5)
+    alpha -= (gamma / den) ** 0.5
     alpha[alpha < 0] = 0  # set negative alpha to zero
     return alpha
 
-- 
2.43.0


From 28e184a08827f4dc78dabb01b6b406e4e60dfe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 18/42] fix: Yang-Zhang volatility uses the open to close
 return of the same bar

---
 quantfinlib/feature/micro_structure/_price_sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index 1922423..aa620f6 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -161,9 +161,9 @@ def get_yang_zhang_volatility(
     """
     coeff = 0.34 / (1.34 + (window + 1) / (window - 1))
     open_prev_close_ret = np.log(p_open / p_close.shift(1))
-    close_prev_open_ret = np.log(p_close / p_open.shift(1))
+    open_to_close_ret = np.log(p_close / p_open)
     sigma_overnight_sq = (open_prev_close_ret**2.0).rolling(window=window).mean()
-    sigma_open_to_close_sq = (close_prev_open_ret**2.0).rolling(window=window).mean()
+    sigma_open_to_close_sq = (open_to_close_ret**2.0).rolling(window=window).mean()
     sigma_rs_sq = get_rogers_satchell_volatility(
         p_high=p_high, p_low=p_low, p_close=p_close, p_open=p_open, window=window
     )
-- 
2.43.0


From 0c719869182fb213d332b698a4390a46aeb7f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 19/42] fix: eigenvalue denoising no longer modifies the
 caller's eigenvalues

---
 quantfinlib/math/cov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index a50acd5..98041ac 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -373,6 +373,7 @@ def _eigen_values_denoise(
     info["fitted"] = False
     num_assets = len(eigen_values)
     if num_assets > num_timesteps:
+        eigen_values = eigen_values.copy()
         eigen_values[-(num_assets - num_timesteps):] = 0.0
     if k is None:
         # Fit the Marchenko Pastur distribution to the eigenvalues and find the noise-var shape parameter,
-- 
2.43.0


From 58bd1d0428beed7874dcc49def93bd8b360cc4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 20/42] fix: Marchenko-Pastur density of integer eigenvalues is
 no longer truncated to integers

---
 quantfinlib/math/cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index 98041ac..8163690 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -240,7 +240,7 @@ def _marchenko_pastur_pdf(var: float, num_timesteps: int, num_assets: int, eigen
 
     q = num_timesteps / num_assets
     e_min, e_max = _marcenko_pastur_support(var, num_timesteps, num_assets)
-    pdf = np.zeros_like(eigen_values)
+    pdf = np.zeros_like(eigen_values, dtype=float)
     mask = np.logical_and(eigen_values > e_min, eigen_values < e_max)
     pdf[mask] = (
         q
-- 
2.43.0


From edae2bdabe22253206eb811cdf38d4389ed65c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 21/42] fix: close the handlers that configure_logger replaces

---
 quantfinlib/util/_logging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantfinlib/util/_logging.py b/quantfinlib/util/_logging.py
index ce13efb..793168c 100644
--- a/quantfinlib/util/_logging.py
+++ b/quantfinlib/util/_logging.py
@@ -24,6 +24,7 @@ def configure_logger(verbosity=logging.WARNING, log_to_file=False, log_file_path
     # Clear any existing handlers
     for handler in logger.handlers[:]:
         logger.removeHandler(handler)
+        handler.close()
 
     # Stream handler for console logging
     stream_handler = logging.StreamHandler()
-- 
2.43.0


From bcee9b86ffc4600c3a369ae7fe8226d313317c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 22/42] fix: importing the distance module no longer overrides
 the configured log level

---
 quantfinlib/distance/distance_matrix.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/quantfinlib/distance/distance_matrix.py b/quantfinlib/distance/distance_matrix.py
index 8ec038e..37ac07b 100644
--- a/quantfinlib/distance/distance_matrix.py
+++ b/quantfinlib/distance/distance_matrix.py
@@ -20,7 +20,6 @@ from quantfinlib.util import (
 )
 
 logger = logging.getLogger("quantfinlib")
-logger.setLevel(logging.WARNING)
 
 CORR_TO_DIST_METHOD_MAP = {
     "angular": corr_to_angular_dist,
-- 
2.43.0


From 3bf191202aa37cf8fd0c3b7381fc73df005e95a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:40 +0000
Subject: [PATCH 23/42] fix: frequency inference of short business-day, weekly
 and monthly series

---
 quantfinlib/_datatypes/timeseries.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index cc046a5..0274b9e 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -80,38 +80,39 @@ def time_series_freq(ts_obj) -> Optional[str]:
 
     # Check if timestamps are year-ends
     year_ends = dt_ndx.is_year_end.sum()
-    if (year_ends >= 2) and (len(dt_ndx) - year_ends <= 2):
+    if (year_ends >= 2) and (len(dt_ndx) - year_ends <= 2) and (len(dt_ndx) - year_ends < year_ends):
         return "YE"
 
     # Check if timestamps are year-starts
     year_starts = dt_ndx.is_year_start.sum()
-    if (year_starts >= 2) and (len(dt_ndx) - year_starts <= 2):
+    if (year_starts >= 2) and (len(dt_ndx) - year_starts <= 2) and (len(dt_ndx) - year_starts < year_starts):
         return "YS"
 
     # Check if timestamps are quarter-ends
     quarter_ends = dt_ndx.is_quarter_end.sum()
-    if (quarter_ends >= 2) and (len(dt_ndx) - quarter_ends <= 2):
+    if (quarter_ends >= 2) and (len(dt_ndx) - quarter_ends <= 2) and (len(dt_ndx) - quarter_ends < quarter_ends):
         return "QE"
 
     # Check if timestamps are quarter-starts
     quarter_starts = dt_ndx.is_quarter_start.sum()
-    if (quarter_starts >= 2) and (len(dt_ndx) - quarter_starts <= 2):
+    if (quarter_starts >= 2) and (len(dt_ndx) - quarter_starts <= 2) and (len(dt_ndx) - quarter_starts < quarter_starts):
         return "QS"
 
     # Check if timestamps are month-ends
     month_ends = dt_ndx.is_month_end.sum()
-    if (month_ends >= 2) and (len(dt_ndx) - month_ends <= 2):
+    if (month_ends >= 2) and (len(dt_ndx) - month_ends <= 2) and (len(dt_ndx) - month_ends < month_ends):
         return "ME"
 
     # Check if timestamps are month-starts
     month_starts = dt_ndx.is_month_start.sum()
-    if (month_starts >= 2) and (len(dt_ndx) - month_starts <= 2):
+    if (month_starts >= 2) and (len(dt_ndx) - month_starts <= 2) and (len(dt_ndx) - month_starts < month_starts):
         return "MS"
 
     # Check for daily frequency (7 days a week)
     daily_count = delta_counts.get(pd.Timedelta(days=1), 0)
-    daily_resolution = len(time_deltas) - daily_count <= 2
-    if daily_resolution:
+    daily_resolution = (daily_count >= 2) and (len(time_deltas) - daily_count <= 2)
+    skips_weekends = (delta_counts.get(pd.Timedelta(days=3), 0) > 0) and (dt_ndx.dayofweek < 5).all()
+    if daily_resolution and not skips_weekends:
         return "D"
 
     # Check for working-day frequency (5 days a week)
-- 
2.43.0


From be4dc2e413f5ae756a86f49fdb7a9046fed228a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:57 +0000
Subject: [PATCH 24/42] fix: calibrate on and score dated data with fewer than
 three rows

---
 quantfinlib/sim/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 1497bbc..5773879 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -128,7 +128,8 @@ class _DateTimeIndexInfo:
             self.name_ = index.name
             self.min_ = index.min()
             self.max_ = index.max()
-            self.freq_ = pd.infer_freq(x.index)
+            # a frequency can only be inferred from at least 3 dates
+            self.freq_ = pd.infer_freq(index) if len(index) >= 3 else None
 
 
 def _values_and_dt(
-- 
2.43.0


From 1fc93128190d483e899bb5f834c564f405df9830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 25/42] fix: EDGE spread of series with repeated index labels

---
 quantfinlib/feature/micro_structure/_price_sequences.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index aa620f6..392afc4 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -278,13 +278,11 @@ def get_edge_spread(
         return _edge_spread(p_high=df["high"], p_low=df["low"], p_open=df["open"], p_close=df["close"], sign=sign)
 
     # Calculate the rolling spread
-    rolling_spread = Parallel(n_jobs=-1)(
+    rolling_spread = np.full(len(price_df), np.nan)
+    rolling_spread[window - 1 :] = Parallel(n_jobs=-1)(
         delayed(_apply_edge_spread)(price_df.iloc[i : i + window]) for i in range(len(price_df) - window + 1)
     )
-    rolling_spread = pd.Series(rolling_spread, index=price_df.index[window - 1 :])
-
-    rolling_spread = rolling_spread.reindex(price_df.index, fill_value=np.nan)
-    return rolling_spread
+    return pd.Series(rolling_spread, index=price_df.index)
 
 
 def _edge_spread(
-- 
2.43.0


From d956a93e0fddbdf71accab86850d3e4e5e3d675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:38 +0000
Subject: [PATCH 26/42] fix: get_clusters returns the requested number of
 clusters for centroid and median linkage

---
 quantfinlib/clustering/hierarchical.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/clustering/hierarchical.py b/quantfinlib/clustering/hierarchical.py
index 43d7cf4..76ffb29 100644
--- a/quantfinlib/clustering/hierarchical.py
+++ b/quantfinlib/clustering/hierarchical.py
@@ -134,13 +134,30 @@ class HC:
         np.ndarray
             The cluster labels.
         """
-        return hierarchy.cut_tree(Z=self.linkage, n_clusters=n_clusters).flatten()
+        return _cut_tree(self.linkage, n_clusters)
 
     def get_optimal_nclusters(self, max_clust: int = 20, metric: str = "gap", nb: int = 10) -> int:
         """Get the optimal number of clusters."""
         return optimize_n_clusters(linkage=self.linkage, dist=self.dist, max_clust=max_clust, metric=metric, nb=nb)
 
 
+def _cut_tree(linkage: np.ndarray, n_clusters: int) -> np.ndarray:
+    """Cut the tree into a number of clusters, by undoing its last merges.
+
+    Unlike scipy's cut_tree this does not rely on the merge distances being monotonic, which they
+    are not for the 'centroid' and 'median' linkage methods.
+    """
+    n_items = len(linkage) + 1
+    # clusters[i] is the list of items below node i of the tree
+    clusters = {i: [i] for i in range(n_items)}
+    for i, (left, right) in enumerate(linkage[: max(n_items - n_clusters, 0), :2].astype(int)):
+        clusters[n_items + i] = clusters.pop(left) + clusters.pop(right)
+    labels = np.zeros(n_items, dtype=int)
+    for label, items in enumerate(sorted(clusters.values(), key=min)):
+        labels[items] = label
+    return labels
+
+
 def optimize_n_clusters(
     linkage: np.ndarray, dist: np.ndarray, max_clust: int = 20, metric: str = "gap", nb: int = 10
 ) -> int:
@@ -171,7 +188,7 @@ def optimize_n_clusters(
         gap_values = []
         gap_std_values = []
         for k in nclust_range:
-            labels = hierarchy.cut_tree(linkage, n_clusters=k).flatten()
+            labels = _cut_tree(linkage, k)
             gap, gap_std = gap_statistic(dist=dist, labels=labels, nb=nb)
             gap_values.append(gap)
             gap_std_values.append(gap_std)
@@ -181,7 +198,7 @@ def optimize_n_clusters(
     elif metric == "silhouette":
         silh_values = []
         for k in nclust_range:
-            labels = hierarchy.cut_tree(linkage, n_clusters=k).flatten()
+            labels = _cut_tree(linkage, k)
             silh_values.append(silhouette_tstat(dist=dist, labels=labels))
         return int(np.argmax(silh_values) + 2)
     else:
-- 
2.43.0


From 2657bf21fa13373524354d5533a0befd7f9ef6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:57 +0000
Subject: [PATCH 27/42] fix: rounding errors no longer make the variation of
 information negative

---
 quantfinlib/distance/information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/distance/information.py b/quantfinlib/distance/information.py
index 06783c7..b53ae71 100644
--- a/quantfinlib/distance/information.py
+++ b/quantfinlib/distance/information.py
@@ -184,7 +184,7 @@ def var_info(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None, nor
         bins = _get_nb_bins_from_xy(x, y)
     h_x, h_y, h_xy = compute_entropies(x, y, bins)  # Compute entropies
     # Compute variation of information
-    var_info_xy = 2 * h_xy - h_x - h_y
+    var_info_xy = max(2 * h_xy - h_x - h_y, 0.0)  # Never negative, but for rounding errors
     if norm:
         var_info_xy /= h_xy  # Normalized variation of information
     return var_info_xy
-- 
2.43.0


From 14e4496465a16c8daa6ba610ee8073a3b17ec03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:53 +0000
Subject: [PATCH 28/42] fix: time_series_freq recognises daily and weekly dates
 across clock changes

---
 quantfinlib/_datatypes/timeseries.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index 0274b9e..aa1d9a6 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -68,8 +68,8 @@ def time_series_freq(ts_obj) -> Optional[str]:
     else:
         dt_ndx = ts_obj
 
-    # Calculate the time deltas between consecutive time points
-    time_deltas = dt_ndx.to_series().diff().dropna()
+    # Calculate the time deltas between consecutive time points, in local time (days with a clock change have 24 hours)
+    time_deltas = dt_ndx.tz_localize(None).to_series().diff().dropna()
 
     # Ensure there are enough data points to make a determination
     if len(time_deltas) < 2:
-- 
2.43.0


From dcd6d76c93f3589655be52c88fdf50abd1c27c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:25 +0000
Subject: [PATCH 29/42] fix: von_neuman_divergence no longer draws from the
 global random generator

---
 quantfinlib/distance/matrix_divergence.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/distance/matrix_divergence.py b/quantfinlib/distance/matrix_divergence.py
index 820f312..a48ce77 100644
--- a/quantfinlib/distance/matrix_divergence.py
+++ b/quantfinlib/distance/matrix_divergence.py
@@ -1,7 +1,6 @@
 """Matrix divergence measures for positive definite matrices."""
 
 import numpy as np
-from scipy.linalg import logm
 
 
 def _assert_positive_definite(p: np.ndarray, q: np.ndarray) -> None:
@@ -9,6 +8,13 @@ def _assert_positive_definite(p: np.ndarray, q: np.ndarray) -> None:
     assert np.all(np.linalg.eigvals(p) > 0) and np.all(np.linalg.eigvals(q) > 0), "Matrices must be positive definite"
 
 
+def _logm(p: np.ndarray) -> np.ndarray:
+    """Calculate the logarithm of a positive definite matrix (scipy's logm draws from the global random generator)."""
+    eigen_values, eigen_vectors = np.linalg.eigh(p)
+    log_values = np.log(np.maximum(eigen_values, np.finfo(float).tiny))  # tiny values may be rounded to zero or below
+    return (eigen_vectors * log_values) @ eigen_vectors.T
+
+
 def log_det_divergence(p: np.ndarray, q: np.ndarray) -> float:
     r"""Calculate log determinant divergence between two positive definite matrices p and q.
 
@@ -55,8 +61,8 @@ def von_neuman_divergence(p: np.ndarray, q: np.ndarray) -> float:
         Von Neumann divergence between p and q.
     """
     _assert_positive_definite(p, q)  # Ensure the matrices are positive definite
-    log_p = logm(p)  # Compute the matrix logarithm of p
-    log_q = logm(q)  # Compute the matrix logarithm of q
+    log_p = _logm(p)  # Compute the matrix logarithm of p
+    log_q = _logm(q)  # Compute the matrix logarithm of q
     first_term = np.trace(p @ (log_p - log_q))
     second_term = np.trace(-p + q)
     return first_term + second_term
-- 
2.43.0


From 3566781b184b88ea9582723c1c1666ce15ca3354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:10 +0000
Subject: [PATCH 30/42] fix: QuasiRandom accepts a signal volatility per
 variate with several paths

---
 quantfinlib/sim/_quasi_random.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_quasi_random.py b/quantfinlib/sim/_quasi_random.py
index aa59b03..b4ca85f 100644
--- a/quantfinlib/sim/_quasi_random.py
+++ b/quantfinlib/sim/_quasi_random.py
@@ -89,6 +89,9 @@ class QuasiRandom(SimBase):
             indicator[1:, i] = np.nan_to_num(self.tech_ind_func(bm_ans[:-1, i]))
 
         # Scale the signal volatility
-        signal_vol = self.f_signal_vol * np.tile(self.base_model.vol, num_paths)
+        num_columns = bm_ans.shape[1]
+        signal_vol = 1.0
+        for v in (self.f_signal_vol, self.base_model.vol):
+            signal_vol = signal_vol * np.tile(np.ravel(v), num_columns // np.size(v))
         indicator = indicator * signal_vol * np.sqrt(dt) / (np.std(indicator[1:-1], axis=0, ddof=2))
         return bm_ans + np.cumsum(indicator, axis=0)
-- 
2.43.0


From a1423389e1959c5a890a97b73f2aa725d0451c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:22 +0000
Subject: [PATCH 31/42] fix: bands over numpy arrays can be pickled

---
 quantfinlib/feature/indicators/_bands.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/quantfinlib/feature/indicators/_bands.py b/quantfinlib/feature/indicators/_bands.py
index d83b803..d367446 100644
--- a/quantfinlib/feature/indicators/_bands.py
+++ b/quantfinlib/feature/indicators/_bands.py
@@ -54,14 +54,10 @@ class GenericBands:
         self.rolling_mean = rolling_mean
         self.rolling_std = rolling_std
         self.multiplier = multiplier
-        if isinstance(ts, pd.Series) or isinstance(rolling_mean, pd.Series) or isinstance(rolling_std, pd.Series):
-            self._rename = self._rename_pd
-        else:
-            self._rename = lambda x, _: x
         self.basename = basename
 
-    def _rename_pd(self, s: pd.Series, name: str) -> pd.Series:
-        return s.rename(name + self.basename)
+    def _rename(self, s: Union[pd.Series, np.ndarray], name: str) -> Union[pd.Series, np.ndarray]:
+        return s.rename(name + self.basename) if isinstance(s, pd.Series) else s
 
     def upper(self) -> Union[pd.Series, np.ndarray]:
         """
-- 
2.43.0


From adde497f5b3f7cb279b8bef15c978cd10756044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:22 +0000
Subject: [PATCH 32/42] fix: __all__ of sim and util holds names, so that star
 imports work

---
 quantfinlib/sim/__init__.py  |  2 +-
 quantfinlib/util/__init__.py | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/quantfinlib/sim/__init__.py b/quantfinlib/sim/__init__.py
index 48bc8ee..7801f38 100644
--- a/quantfinlib/sim/__init__.py
+++ b/quantfinlib/sim/__init__.py
@@ -21,7 +21,7 @@ from ._gbm import GeometricBrownianMotion
 from ._quasi_random import QuasiRandom
 from ._ou import OrnsteinUhlenbeck
 
-__all__ = [BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck, QuasiRandom]
+__all__ = ["BrownianMotion", "GeometricBrownianMotion", "OrnsteinUhlenbeck", "QuasiRandom"]
 
 """
 todo:
diff --git a/quantfinlib/util/__init__.py b/quantfinlib/util/__init__.py
index 84422ff..235e10c 100644
--- a/quantfinlib/util/__init__.py
+++ b/quantfinlib/util/__init__.py
@@ -6,13 +6,13 @@ from quantfinlib.util._validate import validate_series_or_1Darray, validate_fram
 from quantfinlib.util._dtypes import to_numpy, SeriesOrArray, DataFrameOrArray, ArrayLike
 
 __all__ = [
-    logger,
-    get_project_root,
-    configure_logger,
-    validate_series_or_1Darray,
-    validate_frame_or_2Darray,
-    to_numpy,
-    SeriesOrArray,
-    DataFrameOrArray,
-    ArrayLike,
+    "logger",
+    "get_project_root",
+    "configure_logger",
+    "validate_series_or_1Darray",
+    "validate_frame_or_2Darray",
+    "to_numpy",
+    "SeriesOrArray",
+    "DataFrameOrArray",
+    "ArrayLike",
 ]
-- 
2.43.0


From d12ec425587c2ec5e7ba1cecd81340424fcc42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:29 +0000
Subject: [PATCH 33/42] fix: a calibration that fails leaves the model as it
 was

---
 quantfinlib/sim/_base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 5773879..9e6bd67 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -425,8 +425,14 @@ class SimBase(ABC):
             The fitted model instance.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
-        self._fit_np(values, dt)
+        state = self.__dict__.copy()
+        try:
+            values, dt = self._preprocess_fit_x_and_dt(x, dt)
+            self._fit_np(values, dt)
+        except BaseException:
+            # a calibration that fails leaves the model as it was
+            self.__dict__.update(state)
+            raise
         return self
 
 
-- 
2.43.0


From 08f29276804b690db7a3243f0682d45426620244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 34/42] fix: a failed reconfiguration of the logger leaves the
 previous configuration in place

---
 quantfinlib/util/_logging.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/quantfinlib/util/_logging.py b/quantfinlib/util/_logging.py
index 793168c..8974664 100644
--- a/quantfinlib/util/_logging.py
+++ b/quantfinlib/util/_logging.py
@@ -19,26 +19,28 @@ def configure_logger(verbosity=logging.WARNING, log_to_file=False, log_file_path
     """
     global logger
 
-    logger.setLevel(verbosity)
-
-    # Clear any existing handlers
-    for handler in logger.handlers[:]:
-        logger.removeHandler(handler)
-        handler.close()
-
     # Stream handler for console logging
     stream_handler = logging.StreamHandler()
     stream_handler.setLevel(verbosity)
     formatter = logging.Formatter("%(asctime)s - %(name)s - %(module)s:%(lineno)d - %(levelname)s - %(message)s")
     stream_handler.setFormatter(formatter)
-    logger.addHandler(stream_handler)
+    handlers = [stream_handler]
 
     # File handler for file logging
     if log_to_file:
         file_handler = logging.FileHandler(log_file_path)
         file_handler.setLevel(verbosity)
         file_handler.setFormatter(formatter)
-        logger.addHandler(file_handler)
+        handlers.append(file_handler)
+
+    logger.setLevel(verbosity)
+
+    # Clear any existing handlers, now that the new ones could be created
+    for handler in logger.handlers[:]:
+        logger.removeHandler(handler)
+        handler.close()
+    for handler in handlers:
+        logger.addHandler(handler)
 
     logger.info("Logger configured successfully")
 
-- 
2.43.0


From f76091b5934174d487eb1a67853dae8a55b8f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:41 +0000
Subject: [PATCH 35/42] fix: indicators can be imported when docstrings are
 stripped (python -OO)

---
 quantfinlib/feature/indicators/_bands.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantfinlib/feature/indicators/_bands.py b/quantfinlib/feature/indicators/_bands.py
index d367446..9871344 100644
--- a/quantfinlib/feature/indicators/_bands.py
+++ b/quantfinlib/feature/indicators/_bands.py
@@ -115,7 +115,7 @@ class GenericBands:
         return self._rename((self.ts - self.lower()) / (2 * self.rolling_std * self.multiplier), "%B")
 
 
-GenericBands.__doc__ += _GENERIC_DOCSTRING
+GenericBands.__doc__ = (GenericBands.__doc__ or "") + _GENERIC_DOCSTRING
 
 
 class BollingerBands(GenericBands):
@@ -138,7 +138,7 @@ class BollingerBands(GenericBands):
         )
 
 
-BollingerBands.__doc__ += _GENERIC_DOCSTRING
+BollingerBands.__doc__ = (BollingerBands.__doc__ or "") + _GENERIC_DOCSTRING
 
 
 class EwmBollingerBands(GenericBands):
@@ -159,7 +159,7 @@ class EwmBollingerBands(GenericBands):
         super().__init__(ts, ewm_mean(ts, span=window), ewm_std(ts, span=window), multiplier, basename=" EwmBollinger")
 
 
-EwmBollingerBands.__doc__ += _GENERIC_DOCSTRING
+EwmBollingerBands.__doc__ = (EwmBollingerBands.__doc__ or "") + _GENERIC_DOCSTRING
 
 
 class KeltnerBands(GenericBands):
@@ -200,7 +200,7 @@ class KeltnerBands(GenericBands):
         )
 
 
-KeltnerBands.__doc__ += _GENERIC_DOCSTRING
+KeltnerBands.__doc__ = (KeltnerBands.__doc__ or "") + _GENERIC_DOCSTRING
 
 
 class DonchianBands(GenericBands):
@@ -221,4 +221,4 @@ class DonchianBands(GenericBands):
         super().__init__(ts, (ub + lb) / 2, (ub - lb) / 2, 1, basename=" Donchian")
 
 
-DonchianBands.__doc__ += _GENERIC_DOCSTRING
+DonchianBands.__doc__ = (DonchianBands.__doc__ or "") + _GENERIC_DOCSTRING
-- 
2.43.0


From 86906969cc5350fbda1bf0b3d3dc4b9ac05f8e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:58 +0000
Subject: [PATCH 36/42] fix: quasi-random models no longer share one default
 base model

---
 quantfinlib/sim/_quasi_random.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_quasi_random.py b/quantfinlib/sim/_quasi_random.py
index b4ca85f..da59683 100644
--- a/quantfinlib/sim/_quasi_random.py
+++ b/quantfinlib/sim/_quasi_random.py
@@ -40,7 +40,7 @@ class QuasiRandom(SimBase):
         self,
         tech_ind_func: Callable[[np.ndarray], np.ndarray],
         f_signal_vol: Union[float, np.ndarray] = 0.1,
-        base_model: BaseModel = BrownianMotion(),
+        base_model: Optional[BaseModel] = None,
     ):
         r"""Initializes the QuasiBrownianMotion instance for simulating a semi-random process.
         First a random path is generated using Brownian motion, then the technical indicator is
@@ -54,13 +54,13 @@ class QuasiRandom(SimBase):
         f_signal_vol : float or array, optional
             The factor by which to scale the signal volatility compared to the Brownian motion
             volatility (default is 0.1).
-        base_model : BaseModel
+        base_model : BaseModel, optional
             The base simulation model to use (default is BrownianMotion).
         """
         super().__init__()
         self.tech_ind_func = tech_ind_func
         self.f_signal_vol = f_signal_vol
-        self.base_model = base_model
+        self.base_model = BrownianMotion() if base_model is None else base_model
 
     def __repr__(self) -> str:
         """Return a string representation of the QuasiBrownianMotion instance."""
-- 
2.43.0


From af29be9103dc4a0313ffbb83ee17cf0714a5e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 37/42] fix: array, frame and series types report a mismatch in
 a way that lets pydantic try the other members of a union

---
 quantfinlib/util/_custom_types.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/quantfinlib/util/_custom_types.py b/quantfinlib/util/_custom_types.py
index f253894..5934e04 100644
--- a/quantfinlib/util/_custom_types.py
+++ b/quantfinlib/util/_custom_types.py
@@ -32,18 +32,18 @@ class _CustomNumpyArrayPydanticAnnotation:  # pragma: no cover
 
         def validate_numpy_array(value: Any) -> np.ndarray:
             if not isinstance(value, np.ndarray):
-                raise TypeError(f"Expected a numpy array, got {type(value)}")
+                raise ValueError(f"Expected a numpy array, got {type(value)}")
             # Validate dtype
             if self.dtype is not Any and not np.can_cast(value.dtype, np.dtype(self.dtype)):
-                raise TypeError(f"Expected array of dtype {self.dtype}, got {value.dtype}")
+                raise ValueError(f"Expected array of dtype {self.dtype}, got {value.dtype}")
             # Validate shape
             if isinstance(self.shape, tuple):
                 if len(self.shape) != value.ndim:
-                    raise TypeError(f"Expected {len(self.shape)}-dimensional array, got {value.ndim}-dimensional array")
+                    raise ValueError(f"Expected {len(self.shape)}-dimensional array, got {value.ndim}-dimensional array")
 
                 for dim, expected_dim in zip(value.shape, self.shape):
                     if expected_dim != "*" and dim != int(expected_dim):
-                        raise TypeError(f"Expected array shape {self.shape}, but got {value.shape}")
+                        raise ValueError(f"Expected array shape {self.shape}, but got {value.shape}")
 
             return value
 
@@ -92,7 +92,7 @@ class _CustomPandasDataFramePydanticAnnotation:  # pragma: no cover
     def __get_pydantic_core_schema__(self, _source_type: Any, _handler: Any) -> core_schema.CoreSchema:
         def validate_dataframe(value: Any) -> pd.DataFrame:
             if not isinstance(value, pd.DataFrame):
-                raise TypeError(f"Expected a pandas DataFrame, got {type(value)}")
+                raise ValueError(f"Expected a pandas DataFrame, got {type(value)}")
 
             # Validate columns if columns are provided
             if self.columns is not None:
@@ -100,21 +100,21 @@ class _CustomPandasDataFramePydanticAnnotation:  # pragma: no cover
                     raise TypeError(f"Expected 'columns' to be a dictionary, got {type(self.columns)}")
                 for col, dtype in self.columns.items():
                     if col not in value.columns:
-                        raise TypeError(f"Missing expected column: {col}")
+                        raise ValueError(f"Missing expected column: {col}")
                     if not pd.api.types.is_dtype_equal(value[col].dtype, dtype):
-                        raise TypeError(
+                        raise ValueError(
                             f"Expected column '{col}' to have dtype '{dtype}', but got '{value[col].dtype}'"
                         )
 
             # If dtype is provided, validate the entire DataFrame's dtype
             elif self.dtype is not None:
                 if not all(pd.api.types.is_dtype_equal(value.dtypes[col], self.dtype) for col in value.columns):
-                    raise TypeError(f"Expected all columns to have dtype '{self.dtype}', but found mismatch.")
+                    raise ValueError(f"Expected all columns to have dtype '{self.dtype}', but found mismatch.")
 
             # Validate shape
             if self.shape != "*" and len(self.shape) == 2:
                 if value.shape != self.shape:
-                    raise TypeError(f"Expected DataFrame shape {self.shape}, but got {value.shape}")
+                    raise ValueError(f"Expected DataFrame shape {self.shape}, but got {value.shape}")
 
             return value
 
@@ -158,19 +158,19 @@ class _CustomPandasSeriesPydanticAnnotation:  # pragma: no cover
     def __get_pydantic_core_schema__(self, _source_type: Any, _handler: Any) -> core_schema.CoreSchema:
         def validate_series(value: Any) -> pd.Series:
             if not isinstance(value, pd.Series):
-                raise TypeError(f"Expected a pandas Series, got {type(value)}")
+                raise ValueError(f"Expected a pandas Series, got {type(value)}")
 
             # Validate dtype if provided
             if self.dtype is not None:
                 if not pd.api.types.is_dtype_equal(value.dtype, self.dtype):
-                    raise TypeError(f"Expected Series to have dtype '{self.dtype}', but got '{value.dtype}'")
+                    raise ValueError(f"Expected Series to have dtype '{self.dtype}', but got '{value.dtype}'")
 
             # Validate shape (length)
             if self.shape != "*":
                 if not isinstance(self.shape, int):
                     raise TypeError(f"Expected 'shape' to be an integer or '*', got {type(self.shape)}")
                 if len(value) != self.shape:
-                    raise TypeError(f"Expected Series to have length {self.shape}, but got {len(value)}")
+                    raise ValueError(f"Expected Series to have length {self.shape}, but got {len(value)}")
 
             return value
 
-- 
2.43.0


From 0766a7e62cffe4537f7aa58fe1295d589c6be70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 38/42] fix: the type of splitter groups accepts the dates it
 declares

---
 quantfinlib/train_test_split/_dtypes.py | 2 +-
 quantfinlib/util/_custom_types.py       | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/quantfinlib/train_test_split/_dtypes.py b/quantfinlib/train_test_split/_dtypes.py
index f4fcb0a..3de87a2 100644
--- a/quantfinlib/train_test_split/_dtypes.py
+++ b/quantfinlib/train_test_split/_dtypes.py
@@ -30,7 +30,7 @@ YType: TypeAlias = Union[YTypeArray, YTypeSeries]
 GroupType: TypeAlias = Union[
     Annotated[np.ndarray, _CustomNumpyArrayPydanticAnnotation(shape=("*",), dtype=np.int_)],
     Annotated[pd.Series, _CustomPandasSeriesPydanticAnnotation(dtype=np.int_)],
-    Annotated[pd.DatetimeIndex, _CustomPandasSeriesPydanticAnnotation()],
+    Annotated[pd.DatetimeIndex, _CustomPandasSeriesPydanticAnnotation(container=pd.DatetimeIndex)],
 ]
 
 BoundPerFoldType: TypeAlias = Annotated[
diff --git a/quantfinlib/util/_custom_types.py b/quantfinlib/util/_custom_types.py
index 5934e04..1dcb91e 100644
--- a/quantfinlib/util/_custom_types.py
+++ b/quantfinlib/util/_custom_types.py
@@ -148,17 +148,20 @@ class _CustomPandasSeriesPydanticAnnotation:  # pragma: no cover
         Expected dtype for the Series, by default None.
     shape : Union[int, str], optional
         Expected number of elements in the Series, or '*' for arbitrary length, by default "*".
+    container : type, optional
+        Expected type of the container: a pandas Series (the default) or one of the pandas Index types.
     """
 
-    def __init__(self, dtype: Optional[Any] = None, shape: Union[int, str] = "*"):
+    def __init__(self, dtype: Optional[Any] = None, shape: Union[int, str] = "*", container: type = pd.Series):
 
         self.dtype = dtype
         self.shape = shape
+        self.container = container
 
     def __get_pydantic_core_schema__(self, _source_type: Any, _handler: Any) -> core_schema.CoreSchema:
         def validate_series(value: Any) -> pd.Series:
-            if not isinstance(value, pd.Series):
-                raise ValueError(f"Expected a pandas Series, got {type(value)}")
+            if not isinstance(value, self.container):
+                raise ValueError(f"Expected a pandas {self.container.__name__}, got {type(value)}")
 
             # Validate dtype if provided
             if self.dtype is not None:
-- 
2.43.0


From c4e9f37bcad508298b6d3e417f90919f9afa0e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:32 +0000
Subject: [PATCH 39/42] fix: block sizes with a small integer type do not
 overflow

---
 quantfinlib/math/cov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index 8163690..152a41d 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -49,7 +49,8 @@ def _cor_block_diagonal(
     N = np.sum(block_sizes)
     cor = np.zeros((N, N))
     i = 0
-    for block_size, block_cor in zip(block_sizes, block_cors):
+    # plain integers: the sum of sizes with a small integer type can overflow
+    for block_size, block_cor in zip(map(int, block_sizes), block_cors):
         cor[i : i + block_size, i : i + block_size] = block_cor
         i += block_size
     np.fill_diagonal(cor, 1.0)
-- 
2.43.0


From 157e1b8a04720697b70be388220a9ece369e79a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:32 +0000
Subject: [PATCH 40/42] fix: splitters handle groups with a small or unsigned
 integer type

---
 quantfinlib/train_test_split/_base.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/quantfinlib/train_test_split/_base.py b/quantfinlib/train_test_split/_base.py
index a1c4ca5..dd83948 100644
--- a/quantfinlib/train_test_split/_base.py
+++ b/quantfinlib/train_test_split/_base.py
@@ -133,11 +133,14 @@ def _embargo(
 
 def _positional_groups(groups: GroupType) -> GroupType:
     """Convert groups that are provided as a Series to a form that is indexed by position instead of by label."""
-    if not isinstance(groups, pd.Series):
-        return groups
-    if pd.api.types.is_datetime64_any_dtype(groups):
-        return pd.DatetimeIndex(groups)
-    return groups.to_numpy()
+    if isinstance(groups, pd.Series):
+        if pd.api.types.is_datetime64_any_dtype(groups):
+            return pd.DatetimeIndex(groups)
+        groups = groups.to_numpy()
+    if isinstance(groups, np.ndarray) and np.issubdtype(groups.dtype, np.integer):
+        # the window, purge and embargo limits may not fit in a small or unsigned type
+        return groups.astype(np.int64)
+    return groups
 
 
 class BaseCV(ABC):
@@ -180,7 +183,7 @@ class BaseCV(ABC):
             raise TypeError("y must be a numpy array or a Series")
         if groups is not None and not isinstance(groups, (np.ndarray, pd.Series, pd.DatetimeIndex)):
             raise TypeError("groups must be a numpy array or a Series")
-        if isinstance(groups, np.ndarray) and not np.all(np.diff(groups) >= 0):
+        if isinstance(groups, np.ndarray) and not np.all(groups[1:] >= groups[:-1]):
             raise ValueError("groups must be sorted in ascending order")
         if isinstance(groups, (pd.Series, pd.DatetimeIndex)) and not groups.is_monotonic_increasing:
             raise ValueError("groups must be sorted in ascending order")
-- 
2.43.0


From 8571f2c7ae5164eb7d7a927f68f729682f0985fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:32 +0000
Subject: [PATCH 41/42] fix: features of unsigned and small integers do not
 wrap around or lose precision

---
 quantfinlib/feature/indicators/_base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/feature/indicators/_base.py b/quantfinlib/feature/indicators/_base.py
index ba24f50..20b4173 100644
--- a/quantfinlib/feature/indicators/_base.py
+++ b/quantfinlib/feature/indicators/_base.py
@@ -24,10 +24,16 @@ def numpy_io_support(func):
             elif not isinstance(bound_args.arguments[name], pd.Series):
                 raise TypeError(f"Argument '{name}' must be either numpy array or pandas Series.")
 
+        # Calculate with floats: differences and products may not fit in a small or unsigned integer type.
+        arguments = {**bound_args.arguments, **np_args}
+        for name in exp_pd_args:
+            if isinstance(arguments[name].dtype, np.dtype) and arguments[name].dtype.kind in "iu":
+                arguments[name] = arguments[name].astype(float)
+
         if len(np_args) == 0:
-            return func(**bound_args.arguments)
+            return func(**arguments)
         elif len(np_args) == len(exp_pd_args):
-            return func(**{**bound_args.arguments, **np_args}).values
+            return func(**arguments).values
         else:
             raise TypeError("Cannot mix numpy arrays with pandas Series in input.")
 
-- 
2.43.0


From 6a936cb4b36245b4cff235b0e6e20b4d8d3e6f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:32 +0000
Subject: [PATCH 42/42] fix: the CUSUM test keeps its precision for small
 integer types

---
 quantfinlib/feature/structural_breaks/cusumtest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/feature/structural_breaks/cusumtest.py b/quantfinlib/feature/structural_breaks/cusumtest.py
index 028f8b5..d3d150e 100644
--- a/quantfinlib/feature/structural_breaks/cusumtest.py
+++ b/quantfinlib/feature/structural_breaks/cusumtest.py
@@ -56,7 +56,7 @@ def chu_stinchcombe_white_cusum_test(y: np.ndarray) -> tuple[np.ndarray, np.ndar
     """
     T = len(y)
     b_alpha = 4.6  # Derived via Monte Carlo for alpha=0.05
-    log_y = np.log(y)  # Precompute log-prices
+    log_y = np.log(y, dtype=float)  # Precompute log-prices
     # Compute the moving average standard deviation up to each time point
     squared_diffs = (log_y[1:] - log_y[:-1]) ** 2.0
     sigma_hats = np.sqrt(np.cumsum(squared_diffs) / np.arange(1, T))
-- 
2.43.0


From a6094f98d6182684d2e4c6b37068f603b6cc7206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 01/67] fix: delete beat decisions of previous fits when
 fitting again

SAMPLEBeatsDROP never reset the storage of its beat decisor, so that decisions
about the tracks of a previous input survived a serial fit on an input with
fewer tracks (a parallel fit starts from an empty storage, instead)
---
 sample/beatsdrop/sample.py | 4 ++++
 sample/sample.py           | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/sample/beatsdrop/sample.py b/sample/beatsdrop/sample.py
index ea21542..0a84868 100644
--- a/sample/beatsdrop/sample.py
+++ b/sample/beatsdrop/sample.py
@@ -84,6 +84,10 @@ class SAMPLEBeatsDROP(sample.sample.SAMPLE):
 
   _PARAM_MATRIX_NROWS: int = 4
 
+  def _reset_intermediate(self):
+    super()._reset_intermediate()
+    self.beat_decisor.intermediate.reset()
+
   def _fit_track(self, i: int, t: np.ndarray,
                  track: dict) -> Sequence[Tuple[float, float, float, float]]:
     """Fit parameters for one track.
diff --git a/sample/sample.py b/sample/sample.py
index 9125851..61841b6 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -155,6 +155,10 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
 
   _PARAM_MATRIX_NROWS: int = 3
 
+  def _reset_intermediate(self):
+    """Delete intermediate values from previous fits. The sinusoidal model
+    already takes care of its own storage"""
+
   @utils.warnings_simplefilter(action="ignore",
                                category=RuntimeWarning,
                                toggle=("ignore_warnings", True))
@@ -173,6 +177,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
     for k, v in kwargs.items():
       (sample_kwargs if k in self.get_params() else ctx_kwargs)[k] = v
     self.set_params(**sample_kwargs)
+    self._reset_intermediate()
 
     with sample._training.sample_training_context(self, **kwargs) as fit_args:  # pylint: disable=W0212
       # Process frames
-- 
2.43.0


From d879844c2ee63657b7c5a9e67a866c6a451e6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:29 +0000
Subject: [PATCH 02/67] fix: do not ignore deprecated and unknown parameters
 passed to fit

Only the names listed by get_params were applied, so that arguments such as
sinusoidal_model__fs were silently dropped and the audio was analysed at the
wrong sample rate
---
 sample/sample.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sample/sample.py b/sample/sample.py
index 61841b6..f13bf8c 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -172,14 +172,16 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
 
     Returns:
       SAMPLE: self"""
-    sample_kwargs = {}
-    ctx_kwargs = {}
-    for k, v in kwargs.items():
-      (sample_kwargs if k in self.get_params() else ctx_kwargs)[k] = v
-    self.set_params(**sample_kwargs)
+    ctx_kwargs = {
+        k: kwargs.pop(k)
+        for k in ("n_jobs", "mp_manager", "pool", "_fit_args")
+        if k in kwargs
+    }
+    # Anything else is a parameter (possibly under a deprecated name)
+    self.set_params(**kwargs)
     self._reset_intermediate()
 
-    with sample._training.sample_training_context(self, **kwargs) as fit_args:  # pylint: disable=W0212
+    with sample._training.sample_training_context(self, **ctx_kwargs) as fit_args:  # pylint: disable=W0212
       # Process frames
       fit_args.progress_start(len(self.sinusoidal.time_frames(x)))
       tracks = self.sinusoidal.fit(x, y, _fit_args=fit_args).tracks_
-- 
2.43.0


From da8445c69c36a53f53d8628f4f84b2693b79bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:29 +0000
Subject: [PATCH 03/67] fix: export the parameters of a model without modes

sdt_params_ raised ZeroDivisionError when no mode had been found
---
 sample/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index f13bf8c..8b63f61 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -282,7 +282,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
         "fragmentSize": 1.0,
         "freqs": self.freqs_[m_ord].tolist(),
         "decays": self.decays_[m_ord].tolist(),
-        "weights": np.full(n_modes, 1 / n_modes).tolist(),
+        "weights": np.full(n_modes, 1 / max(n_modes, 1)).tolist(),
         "gains": [self.amps_[m_ord].tolist()],
     }
 
-- 
2.43.0


From 0f3d0b2572948b35e85b105067d044dbcf618ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 04/67] fix: accept the deprecated arguments of the sinusoidal
 models again

The converter of 'sine_tracker_cls' always raised a TypeError (multiple values
for the argument) and that of 'safe_sine_len' did when another positional
argument was specified
---
 sample/sms/sm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/sms/sm.py b/sample/sms/sm.py
index bc0b6cd..f5d3652 100644
--- a/sample/sms/sm.py
+++ b/sample/sms/sm.py
@@ -204,7 +204,7 @@ def _decorate_sinusoidal_model(func):
   @utils.deprecated_argument("min_sine_dur", "tracker__min_sine_dur")
   @utils.deprecated_argument(
       "safe_sine_len",
-      convert=lambda _, **kwargs:
+      convert=lambda *_, **kwargs:
       ("tracker__min_sine_dur",
        max(-1 if kwargs["safe_sine_len"] is None else kwargs["safe_sine_len"],
            kwargs.get("tracker__min_sine_dur", 1))),
@@ -213,7 +213,7 @@ def _decorate_sinusoidal_model(func):
   @utils.deprecated_argument("freq_dev_offset", "tracker__freq_dev_offset")
   @utils.deprecated_argument("freq_dev_slope", "tracker__freq_dev_slope")
   @utils.deprecated_argument("sine_tracker_cls",
-                             convert=lambda sine_tracker_cls, **kwargs:
+                             convert=lambda *_, sine_tracker_cls, **kwargs:
                              ("tracker", sine_tracker_cls()))
   @utils.deprecated_argument("save_intermediate", "intermediate__save")
   @utils.deprecated_argument("fs", "tracker__fs")
-- 
2.43.0


From 70d99b4eda15d66a179639f2ed55b1f33197d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:32 +0000
Subject: [PATCH 05/67] fix: accept the deprecated 'sample_fn' argument of
 SAMPLEOptimizer again

The parameters were passed to the remapper as a positional argument (the
logarithm of the FFT size), so that it always raised a TypeError
---
 sample/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index 9205450..5fb7d1e 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -94,8 +94,8 @@ class SAMPLEOptimizer:
       "sample_fn",
       convert=lambda _, **kwargs:
       ("model", kwargs["sample_fn"]
-       (**kwargs.get("remap", sample_kwargs_remapper)({} if kwargs.get(
-           "sample_kw", None) is None else kwargs.get("sample_kw", None)))),
+       (**kwargs.get("remap", sample_kwargs_remapper)(**({} if kwargs.get(
+           "sample_kw", None) is None else kwargs.get("sample_kw", None))))),
       msg="Provide a sample.SAMPLE instance with the desired parameters, "
       "instead of constructor and arguments")
   @utils.deprecated_argument(
-- 
2.43.0


From edaf297a141e30cdfaf3d5a008c4b78f976f2bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:32 +0000
Subject: [PATCH 06/67] fix: optimize the parameters when there is no remapper

With remap=None the values of the dimensions never reached the model
---
 sample/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index 5fb7d1e..836de23 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -139,8 +139,9 @@ class SAMPLEOptimizer:
     if len(args) != len(self.dimensions):
       raise ValueError(f"Expected {len(self.dimensions)} "
                        f"positional arguments, got {len(args)}")
+    kwargs = dict(**dict(zip(self.dimensions, args)), **kwargs)
     if self.remap is not None:
-      kwargs = self.remap(**dict(zip(self.dimensions, args)), **kwargs)
+      kwargs = self.remap(**kwargs)
     return kwargs
 
   def loss(self, x: np.ndarray, fs: float) -> Callable[..., float]:
-- 
2.43.0


From 31acd26c984835b086c996c233d31c9af2f86539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:17 +0000
Subject: [PATCH 07/67] fix: accept any sequence of phases, or none, when
 resynthesizing

---
 sample/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample/sample.py b/sample/sample.py
index 8b63f61..dcf2f4c 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -314,8 +314,9 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
       else:
         n_modes = self.max_n_modes
     m_ord = self.mode_argsort_(order=order, reverse=reverse)[:n_modes]
-    if "phases" in kwargs and not isinstance(kwargs["phases"], str):
-      kwargs["phases"] = kwargs["phases"][m_ord]
+    phases = kwargs.get("phases", None)
+    if phases is not None and not isinstance(phases, str):
+      kwargs["phases"] = np.asarray(phases)[m_ord]
     return additive_synth(x, self.freqs_[m_ord], self.decays_[m_ord],
                           self.amps_[m_ord], **kwargs)
 
-- 
2.43.0


From 6bb5e565ab9283aaf2afe9b35caf6246f4db46fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:29 +0000
Subject: [PATCH 08/67] fix: do not drop the end of the output of strided
 convolution

Frames whose window lies in the last samples of the zero-padding were not
computed when the delay of a channel is not a multiple of the stride
---
 sample/psycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index a660c9b..200df04 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -848,7 +848,7 @@ class GammatoneFilterbank:
         # Starting index
         x_begins = self._ir_size - ir_sizes - offsets_x
         # Input lengths
-        x_sizes = np.minimum(x_pad.size - x_begins, x.size + 2 * (ir_sizes - 1))
+        x_sizes = x.size + 2 * (ir_sizes - 1) + offsets_x
         # Output lengths
         n_wins = np.array([
             dsp_utils.n_windows(x_size, ir_size, hop=stride)
-- 
2.43.0


From 37e385d3ccea8acf92cbe754fb033823907d0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:29 +0000
Subject: [PATCH 09/67] fix: correct the linear coefficient of the quadratic
 ERB

Moore & Glasberg (1983): 6.23 f^2 + 93.39 f + 28.52, with f in kHz. The
value used was ten times smaller, which is inconsistent with hz2cams
---
 sample/psycho.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 200df04..d217928 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -237,10 +237,10 @@ def erb(
 
   Returns:
     array: Equivalent recrangular bandwidths at the given frequencies"""
-  # 0.009339 * f
+  # 0.09339 * f
   tmp = np.empty_like(out)
-  np.multiply(0.009339, f, out=tmp)
-  # 6.23e-6 * f^2 + 0.009339 * f + 28.52
+  np.multiply(0.09339, f, out=tmp)
+  # 6.23e-6 * f^2 + 0.09339 * f + 28.52
   np.square(f, out=out)
   np.multiply(6.23e-6, out, out=out)
   np.add(out, tmp, out=out)
-- 
2.43.0


From bde975af1f33915e1f9967bcc0033b1a42ea7db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:29 +0000
Subject: [PATCH 10/67] fix: do not overflow when squaring integer inputs

---
 sample/psycho.py | 4 ++--
 sample/sample.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index d217928..8da7235 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -241,7 +241,7 @@ def erb(
   tmp = np.empty_like(out)
   np.multiply(0.09339, f, out=tmp)
   # 6.23e-6 * f^2 + 0.09339 * f + 28.52
-  np.square(f, out=out)
+  np.square(f, out=out, dtype=out.dtype)
   np.multiply(6.23e-6, out, out=out)
   np.add(out, tmp, out=out)
   return np.add(out, 28.52, out=out)
@@ -377,7 +377,7 @@ def a_weighting(f: float,
   if db:
     return dsp_utils.a2db(a_weighting(f, db=False, out=out)) - _a_weight_1kHz_db
   f2 = np.empty_like(out)
-  np.square(f, out=f2)
+  np.square(f, out=f2, dtype=f2.dtype)
   # f^2 + 107.7^2
   np.add(f2, 11599.29, out=out)
   # (f^2 + 107.7^2) (f^2 + 737.9^2)
diff --git a/sample/sample.py b/sample/sample.py
index dcf2f4c..224eb9e 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -30,7 +30,7 @@ def modal_energy(a: np.ndarray,
   Returns:
     array: Energies"""
   # d * a^2 / 4
-  np.square(a, out=out)
+  np.square(a, out=out, dtype=out.dtype)
   np.multiply(out, d, out=out)
   np.true_divide(out, 4, out=out)
   return out
-- 
2.43.0


From 6f971e68c2ad5a0dfb2b92e7c2e33ea0103f2151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:29 +0000
Subject: [PATCH 11/67] fix: store the A-weights in decibel in the output array

---
 sample/psycho.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 8da7235..64ed406 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -375,7 +375,9 @@ def a_weighting(f: float,
   Returns:
     array: A-weights"""
   if db:
-    return dsp_utils.a2db(a_weighting(f, db=False, out=out)) - _a_weight_1kHz_db
+    out = a_weighting(f, db=False, out=out)
+    dsp_utils.a2db(out, out=out)
+    return np.subtract(out, _a_weight_1kHz_db, out=out)
   f2 = np.empty_like(out)
   np.square(f, out=f2, dtype=f2.dtype)
   # f^2 + 107.7^2
-- 
2.43.0


From 53ae6c15c6e38fc0b6beefc79d5fbd0bb642cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:33 +0000
Subject: [PATCH 12/67] fix: evaluate gammatone envelopes at integer and early
 times

Integer time axes raised an exception and times long before the onset
resulted in NaN
---
 sample/psycho.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 64ed406..857655b 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -598,12 +598,13 @@ class GammatoneFilter:
 
     Returns:
       array: The IR envelope function evaluated at :data:`t`"""
-    tmp = np.empty_like(t)
     # t + t_c
-    t_ = np.empty_like(t)
-    np.add(t, t_c, out=t_)
+    t_ = np.add(t, t_c, dtype=float)
     # u(t + t_c)
     np.greater_equal(t_, 0, out=out)
+    # No need to evaluate the other factors (which may overflow) at t < -t_c
+    t_ = np.maximum(t_, 0)
+    tmp = np.empty_like(t_)
     # u(t + t_c) * (t + t_c)^(n-1)
     np.power(t_, n - 1, out=tmp)
     np.multiply(tmp, out, out=out)
-- 
2.43.0


From 0fc1e61b72180a28f1f56992b66ffb7af59a8b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:42 +0000
Subject: [PATCH 13/67] fix: normalize integer signals

---
 sample/utils/dsp.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index ae93ee5..9f1a658 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -10,7 +10,7 @@ from sample import utils
 
 
 @utils.function_with_variants(key="mode", default="peak", this="peak")
-@utils.numpy_out
+@utils.numpy_out(dtype=np.float32)
 def normalize(
     x: np.ndarray,
     mode: str = "peak",  # pylint: disable=W0613
@@ -24,11 +24,12 @@ def normalize(
 
   Returns:
     array: Normalized array"""
+  x = np.asarray(x, dtype=out.dtype)
   return np.true_divide(x, np.abs(x).max(), out=out)
 
 
 @utils.function_variant(normalize, "rms")
-@utils.numpy_out
+@utils.numpy_out(dtype=np.float32)
 def _normalize_rms(x: np.ndarray,
                    out: Optional[np.ndarray] = None) -> np.ndarray:
   """Normalize the array to have zero mean and unitary variance
@@ -39,12 +40,14 @@ def _normalize_rms(x: np.ndarray,
 
   Returns:
     array: Normalized array"""
+  x = np.asarray(x, dtype=out.dtype)
+  std = np.std(x) or 1
   np.subtract(x, np.mean(x), out=out)
-  return np.true_divide(out, np.std(x) or 1, out=out)
+  return np.true_divide(out, std, out=out)
 
 
 @utils.function_variant(normalize, "range")
-@utils.numpy_out
+@utils.numpy_out(dtype=np.float32)
 def _normalize_range(x: np.ndarray,
                      out: Optional[np.ndarray] = None) -> np.ndarray:
   """Normalize the array to have values betwen zero and one
@@ -55,6 +58,7 @@ def _normalize_range(x: np.ndarray,
 
   Returns:
     array: Normalized array"""
+  x = np.asarray(x, dtype=out.dtype)
   np.subtract(x, np.min(x), out=out)
   return np.true_divide(out, np.max(out), out=out)
 
-- 
2.43.0


From 5b95dffb773bb2e04aacc8033dcb1f8e190f9be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:42 +0000
Subject: [PATCH 14/67] fix: accept empty and nested sequences in numpy-like
 functions

---
 sample/utils/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample/utils/__init__.py b/sample/utils/__init__.py
index e72d420..228c466 100644
--- a/sample/utils/__init__.py
+++ b/sample/utils/__init__.py
@@ -125,6 +125,8 @@ def _result_type(*args):
   """Custom wrapper for :func:`numpy.result_type`"""
   ts = []
   for a in args:
+    if isinstance(a, (list, tuple)):
+      a = np.asarray(a)  # numpy would interpret these as data types
     try:
       t = [np.result_type(a)]
     except TypeError:
-- 
2.43.0


From 8ba862939b0e6e6ea01d9eabf129a52a74f57130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:56 +0000
Subject: [PATCH 15/67] fix: copy and pickle beat models and gammatone
 filterbanks

Looking up attributes before the instance is initialized never ended
---
 sample/beatsdrop/__init__.py | 3 ++-
 sample/psycho.py             | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/sample/beatsdrop/__init__.py b/sample/beatsdrop/__init__.py
index 24fcd7b..9eb8721 100644
--- a/sample/beatsdrop/__init__.py
+++ b/sample/beatsdrop/__init__.py
@@ -180,7 +180,8 @@ class Beat:
                        {self._graph["t"]: t})
 
   def __getattr__(self, key: str):
-    if key in self._graph:
+    # The graph is not there yet when copying
+    if key != "_graph" and key in self._graph:
       return functools.partial(self.compute, output=key)
     else:
       raise AttributeError(
diff --git a/sample/psycho.py b/sample/psycho.py
index 857655b..e94476e 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -756,10 +756,11 @@ class GammatoneFilterbank:
   def __getattr__(self, key: str):
     """If attribute is not found, try getting a tuple of attributes,
     one from each filter"""
-    try:
-      return tuple(getattr(f, key) for f in self)
-    except AttributeError:
-      pass
+    if key != "_filters":  # the filters are not there yet when copying
+      try:
+        return tuple(getattr(f, key) for f in self)
+      except AttributeError:
+        pass
     return super().__getattr__(key)
 
   class PrecomputedIRBank:
-- 
2.43.0


From 97418976945e9bf8840549114ce366b501da8728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 16/67] fix: broadcast constant and time-varying parameters of
 beats

A constant amplitude, frequency or phase of the first partial could not be
mixed with a function of time for the second one
---
 sample/utils/__init__.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sample/utils/__init__.py b/sample/utils/__init__.py
index 228c466..bc2af93 100644
--- a/sample/utils/__init__.py
+++ b/sample/utils/__init__.py
@@ -257,7 +257,6 @@ class Numpy2Paragraph:
     self._d = {}
 
   @staticmethod
-  @numpy_out(dtype=float)
   def _semisum(x: np.ndarray,
                y: np.ndarray,
                out: Optional[np.ndarray] = None,
@@ -271,11 +270,9 @@ class Numpy2Paragraph:
 
     Returns:
       array: Half of the sum of the inputs"""
-    out = np.add(x, y, out=out, **kwargs)
-    return np.true_divide(out, 2, out=out, **kwargs)
+    return np.true_divide(np.add(x, y), 2, out=out, **kwargs)
 
   @staticmethod
-  @numpy_out(dtype=float)
   def _semidiff(x: np.ndarray,
                 y: np.ndarray,
                 out: Optional[np.ndarray] = None,
@@ -289,8 +286,7 @@ class Numpy2Paragraph:
 
     Returns:
       array: Half of the difference of the inputs"""
-    out = np.subtract(x, y, out=out, **kwargs)
-    return np.true_divide(out, 2, out=out, **kwargs)
+    return np.true_divide(np.subtract(x, y), 2, out=out, **kwargs)
 
   semisum = pg.op(NamedObject(_semisum.__get__(object), name="semisum"))  # pylint: disable=E1120
   semidiff = pg.op(NamedObject(_semidiff.__get__(object), name="semidiff"))  # pylint: disable=E1120
-- 
2.43.0


From db0b331c6bb30fba00f3435470b7e1c91daef2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:46 +0000
Subject: [PATCH 17/67] fix: do not overflow in the distance of integer vectors

---
 sample/evaluation/metrics.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sample/evaluation/metrics.py b/sample/evaluation/metrics.py
index 3c58580..a7946aa 100644
--- a/sample/evaluation/metrics.py
+++ b/sample/evaluation/metrics.py
@@ -21,11 +21,10 @@ def lp_distance(x, y, p: float = 1):
 
   Returns:
     float: The distance"""
-  tmp = np.empty_like(x)
-  np.subtract(x, y, out=tmp)
-  np.abs(tmp, out=tmp)
+  x, y = np.asarray(x), np.asarray(y)
+  tmp = np.abs(np.subtract(x, y, dtype=np.result_type(x, y, float)))
   if p != 1:
-    np.power(tmp, p, out=tmp)
+    tmp = np.power(tmp, p)
   d = np.sum(tmp)
   if p != 1:
     d = np.power(d, 1 / p)
-- 
2.43.0


From c7ce54f9f0dec07a18089cdd36cdf162c2a8cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:56 +0000
Subject: [PATCH 18/67] fix: parse NaN and infinite integer settings as invalid
 instead of failing

---
 sample/widgets/settings.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index 1a124e5..f6bc52e 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -123,10 +123,9 @@ def custom_positive_int(x: str, dflt: Optional[int] = 1) -> int:
   Returns:
     int: Integer value"""
   try:
-    x = float(x)
-  except ValueError:
+    return int(max(float(x), 1))
+  except (ValueError, OverflowError):
     return dflt
-  return int(max(x, 1))
 
 
 def next_power_of_2(x: str) -> int:
-- 
2.43.0


From 7e7308a2b72f34fbf6e456b80740d8ad1488d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:56 +0000
Subject: [PATCH 19/67] fix: skip spacers when resetting the selections of the
 settings tab

---
 sample/widgets/settings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index f6bc52e..5094e06 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -543,7 +543,8 @@ class SettingsTab(utils.DataOnRootMixin, tk.Frame):
   def reset_selections(self, *args, **kwargs):  # pylint: disable=W0613
     """Reset selections in entries"""
     for v in self._settings.values():
-      v.entry.selection_clear()
+      if not v.is_spacer:
+        v.entry.selection_clear()
 
   def add_setting(self,
                   name,
-- 
2.43.0


From dadd0d03c364803237e3cbae71f8436ba66b3341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:02 +0000
Subject: [PATCH 20/67] fix: replace user files only when the new content is
 completely written

---
 sample/widgets/userfiles.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/sample/widgets/userfiles.py b/sample/widgets/userfiles.py
index f9d1363..5cf8e52 100644
--- a/sample/widgets/userfiles.py
+++ b/sample/widgets/userfiles.py
@@ -43,6 +43,20 @@ class UserDir:
       with open(self.path, encoding=encoding, **kwargs) as f:
         yield f
 
+    @contextlib.contextmanager
+    def _replacing(self):
+      """Context manager for writing to a temporary path, which replaces the
+      file only when it has been written completely"""
+      path = f"{self.path}.tmp"
+      os.makedirs(os.path.dirname(path), exist_ok=True)
+      try:
+        yield path
+        os.replace(path, self.path)
+      except BaseException:
+        if os.path.exists(path):
+          os.remove(path)
+        raise
+
     def is_valid(self) -> bool:
       """Check that path is not :data:`None` or empty"""
       return self.userdir.is_valid() and self.subpath is not None and len(
@@ -62,8 +76,9 @@ class UserDir:
       Args:
         data: Python object to serialize
         kwargs: Keyword arguments for :func:`json.dump`"""
-      with self.open(mode="w") as f:
-        json.dump(data, f, **kwargs)
+      with self._replacing() as path:
+        with open(path, mode="w", encoding="utf-8") as f:
+          json.dump(data, f, **kwargs)
 
     def load_json(self, **kwargs):
       """Load JSON from the file and deserialize as a Python object
@@ -78,8 +93,8 @@ class UserDir:
 
       Args:
         data: Python object to serialize"""
-      os.makedirs(os.path.dirname(self.path), exist_ok=True)
-      pickle.save_pickled(data, self.path)
+      with self._replacing() as path:
+        pickle.save_pickled(data, path)
 
     def load_pickled(self):
       """Load pickled data from the file and
-- 
2.43.0


From 0bafba50920374b52ca14df8c0513a6a750010d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:29 +0000
Subject: [PATCH 21/67] fix: keep the whole audio when no onset is found, as
 for silent or short files

---
 sample/widgets/audioload.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 62348c2..73a3f2e 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -177,8 +177,15 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
 
   def auto_trim(self):
     """Automatically trim audio via onset detection"""
-    onsets = np.flatnonzero(dsp.onset_detection(self.audio_x))
+    try:
+      onsets = np.flatnonzero(dsp.onset_detection(self.audio_x))
+    except ValueError as e:
+      logging.warning("Onset detection failed: %s", e)
+      onsets = ()
     logging.debug("Onsets: %s", onsets)
+    if len(onsets) == 0:
+      # No onsets (e.g. silence, or too short): keep the whole audio
+      onsets = (0,)
     onsets = np.array([*onsets, self.audio_x.size])
     onset_max_i = np.argmax(np.diff(onsets)).flatten()[0]
     self.audio_trim_stop = onsets[onset_max_i + 1]
-- 
2.43.0


From 6e13e1239f33d32409f69f7c6a8cbb074941db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:43 +0000
Subject: [PATCH 22/67] fix: load floating point and unsigned audio files, and
 refuse empty ones

---
 sample/widgets/audioload.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 73a3f2e..d18ab36 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -160,13 +160,20 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         self.filedialog_dir_save = self.filedialog_dir
       try:
         sr, x = wavfile.read(filename)
+        if x.size == 0:
+          raise ValueError("The audio file has no samples")
       except Exception as e:  # pylint: disable=W0703
         logging.error("Error loading audio: [%s] %s", type(e).__name__, e)
         messagebox.showerror(
             type(e).__name__,
             str(e) or "".join((type(e).__name__, "\n", "Filename: ", filename)))
       else:
-        x = x / -np.iinfo(x.dtype).min
+        if np.issubdtype(x.dtype, np.unsignedinteger):
+          # Unsigned PCM samples are centered around the middle of the range
+          mid = np.iinfo(x.dtype).max // 2 + 1
+          x = (x - float(mid)) / mid
+        elif np.issubdtype(x.dtype, np.integer):
+          x = x / -np.iinfo(x.dtype).min
         if np.ndim(x) > 1:
           x = np.mean(x, axis=-1)
         self.audio_x = x
-- 
2.43.0


From b61e02eb1bfdbda47e129cfb1ed41fba0537e3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:00 +0000
Subject: [PATCH 23/67] fix: ignore trimming outside of the plot and accept
 times that are not finite

---
 sample/widgets/audioload.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index d18ab36..b7344af 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -220,7 +220,7 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         entries. Default is :data:`False`"""
     if self.audio_loaded:
       if not samples:
-        value = int(value * self.audio_sr)
+        value = int(np.nan_to_num(value * self.audio_sr))
       if start:
         self.audio_trim_start = min(self.audio_trim_stop - 1, max(0, value))
         logging.debug("Audio trim start: %d", self.audio_trim_start)
@@ -238,6 +238,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       if self.toolbar_on:
         logging.debug("Press aborted: toolbar on")
         self._trim_side = None
+      elif event.xdata is None:
+        logging.debug("Press aborted: outside of the plot")
       elif self.audio_loaded and self._trim_side is None:
         x_i = int(event.xdata * self.audio_sr)
         self._trim_side = \
@@ -247,8 +249,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
     """Callback for manual trim on canvas release. This actually
     sets the index value"""
     with self._manual_trim_lock:
-      if self.toolbar_on:
-        logging.debug("Release aborted: toolbar on")
+      if self.toolbar_on or event.xdata is None:
+        logging.debug("Release aborted: toolbar on or outside of the plot")
         self._trim_side = None
       elif self.audio_loaded and self._trim_side is not None:
         self.set_trim(
-- 
2.43.0


From 1f4a0004b1d743936cee47163e91d0707f89d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:17 +0000
Subject: [PATCH 24/67] fix: round trim times, so that the displayed time of a
 sample selects that sample

---
 sample/widgets/audioload.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index b7344af..4b88535 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -220,7 +220,7 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         entries. Default is :data:`False`"""
     if self.audio_loaded:
       if not samples:
-        value = int(np.nan_to_num(value * self.audio_sr))
+        value = int(np.round(np.nan_to_num(value * self.audio_sr)))
       if start:
         self.audio_trim_start = min(self.audio_trim_stop - 1, max(0, value))
         logging.debug("Audio trim start: %d", self.audio_trim_start)
-- 
2.43.0


From 57b020d9768a37f5a424f764722fb16b7476f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:56 +0000
Subject: [PATCH 25/67] fix: keep the previous analysis when an analysis fails
 or is in progress

---
 sample/widgets/analysis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sample/widgets/analysis.py b/sample/widgets/analysis.py
index 1589d74..d1a04ff 100644
--- a/sample/widgets/analysis.py
+++ b/sample/widgets/analysis.py
@@ -216,15 +216,16 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
         return
       try:
         x = self.audio_x[self.audio_trim_start:self.audio_trim_stop]
-        self.sample_object, fit_kwargs = sample.sample_factory(
+        sample_object, fit_kwargs = sample.sample_factory(
             progressbar=self.progressbar,
             sinusoidal__tracker__fs=self.audio_sr,
             **self.sample_object_kwargs)
-        self.sample_object.fit(x, **fit_kwargs)
+        sample_object.fit(x, **fit_kwargs)
       except Exception as e:  # pylint: disable=W0703
         messagebox.showerror(type(e).__name__, str(e))
         logging.error("Error while fitting", exc_info=True)
-      finally:
+      else:
+        self.sample_object = sample_object
         self.audio_resynth_x = None
         self.update_plot()
 
-- 
2.43.0


From 5169a328df36932a48965d743da10f29df04b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:56 +0000
Subject: [PATCH 26/67] fix: plot analyses of audio shorter than a window

---
 sample/widgets/analysis.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sample/widgets/analysis.py b/sample/widgets/analysis.py
index d1a04ff..98985d8 100644
--- a/sample/widgets/analysis.py
+++ b/sample/widgets/analysis.py
@@ -131,9 +131,6 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
     for ax in self.ax:
       ax.clear()
     m = self.sample_object.sinusoidal
-    stft = np.array([mx for mx, _ in m.intermediate["stft"]]).T
-    if m.tracker.reverse:
-      stft = np.fliplr(stft)
     tmax = len(m.intermediate["stft"]) * m.h / m.fs
 
     plots.sine_tracking_2d(self.sample_object, ax=self.ax)
@@ -144,13 +141,17 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
       xlim = self.ax[0].get_xlim()
     ylim = self.ax[0].get_ylim()
 
-    self.ax[0].imshow(
-        stft,
-        cmap="Greys",
-        origin="lower",
-        aspect="auto",
-        extent=(*xlim, 0, m.fs / 2),
-    )
+    if tmax > 0:
+      stft = np.array([mx for mx, _ in m.intermediate["stft"]]).T
+      if m.tracker.reverse:
+        stft = np.fliplr(stft)
+      self.ax[0].imshow(
+          stft,
+          cmap="Greys",
+          origin="lower",
+          aspect="auto",
+          extent=(*xlim, 0, m.fs / 2),
+      )
     self.ax[0].set_ylim(ylim)
     self.ax[0].set_xlim(xlim)
     self.ax[0].grid(False)
-- 
2.43.0


From c7463720eb252ace1ec7573d3b770aa820ade541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:44 +0000
Subject: [PATCH 27/67] fix: do not resynthesize the previous audio after
 loading, and plot analyses with no frames

---
 sample/plots.py             | 9 ++++++---
 sample/widgets/analysis.py  | 6 ++++--
 sample/widgets/audioload.py | 1 +
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/sample/plots.py b/sample/plots.py
index d72d872..99a66e5 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -48,10 +48,13 @@ def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   reverse = getattr(m.tracker, "reverse", False)
   if reverse:
     if m.intermediate.save:
-      tmax = len(m.intermediate["stft"]) * m.h / m.fs
+      # If the audio is too short, there are no frames
+      stft = m.intermediate.get_state(deepcopy=False).get("stft", ())
+      tmax = len(stft) * m.h / m.fs
     else:
-      tmax = max((track["start_frame"] + track["freq"].size) * m.h / m.fs
-                 for track in m.tracks_)
+      tmax = max(((track["start_frame"] + track["freq"].size) * m.h / m.fs
+                  for track in m.tracks_),
+                 default=0)
   for i, track in enumerate(m.tracks_):
     t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
     if reverse:
diff --git a/sample/widgets/analysis.py b/sample/widgets/analysis.py
index 98985d8..733006a 100644
--- a/sample/widgets/analysis.py
+++ b/sample/widgets/analysis.py
@@ -131,7 +131,9 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
     for ax in self.ax:
       ax.clear()
     m = self.sample_object.sinusoidal
-    tmax = len(m.intermediate["stft"]) * m.h / m.fs
+    # If the audio is too short, there are no frames
+    frames = m.intermediate.get_state(deepcopy=False).get("stft", ())
+    tmax = len(frames) * m.h / m.fs
 
     plots.sine_tracking_2d(self.sample_object, ax=self.ax)
 
@@ -142,7 +144,7 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
     ylim = self.ax[0].get_ylim()
 
     if tmax > 0:
-      stft = np.array([mx for mx, _ in m.intermediate["stft"]]).T
+      stft = np.array([mx for mx, _ in frames]).T
       if m.tracker.reverse:
         stft = np.fliplr(stft)
       self.ax[0].imshow(
diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 4b88535..b5ddd3d 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -178,6 +178,7 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
           x = np.mean(x, axis=-1)
         self.audio_x = x
         self.audio_sr = sr
+        self.audio_resynth_x = None
         self.auto_trim()
         self._plt_lims_valid = False
         self.update_plot()
-- 
2.43.0


From 782e7f7098e0aebcfe506877790b0e99e892883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:04 +0000
Subject: [PATCH 28/67] fix: do not start the GUI again when it crashed or was
 killed

---
 sample/gui.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sample/gui.py b/sample/gui.py
index 64bc129..395863a 100644
--- a/sample/gui.py
+++ b/sample/gui.py
@@ -70,10 +70,13 @@ def run(*argv):
 
   ctx = multiprocessing.get_context()
   q = ctx.SimpleQueue()
-  while q.empty() or q.get():
+  reload = True
+  while reload:
     root = multiprocessing.Process(target=launch,
                                    args=(args,),
                                    kwargs={"reload_queue": q})
     root.start()
     root.join()
+    # If the window has not been closed, reload only if the GUI quit cleanly
+    reload = root.exitcode == 0 if q.empty() else q.get()
   return 0
-- 
2.43.0


From 43650d18ae286d0a63fdf1651a61ca0c5b978987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 29/67] fix: reversed time axis of 3D plots and of plots of
 analyses without stored frames

---
 sample/plots.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/sample/plots.py b/sample/plots.py
index 99a66e5..21f76f8 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -29,6 +29,26 @@ def _is_beat(m: SAMPLE, track_i: int):
       "decision"][track_i]
 
 
+def _tracks_times(m: sm.SinusoidalModel) -> Sequence[np.ndarray]:
+  """Helper function to get the time axes of the tracks, in seconds. If the
+  input was reversed, the axes refer to the original direction of time"""
+  tracks = m.tracks_
+  times = [(track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
+           for track in tracks]
+  if not getattr(m.tracker, "reverse", False):
+    return times
+  stft = None
+  if m.intermediate.save:
+    stft = m.intermediate.get_state(deepcopy=False).get("stft", None)
+  if stft is None:
+    tmax = max(((track["start_frame"] + track["freq"].size) * m.h / m.fs
+                for track in tracks),
+               default=0)
+  else:
+    tmax = len(stft) * m.h / m.fs
+  return [tmax - t_x for t_x in times]
+
+
 def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   """Plot sinusoidal tracks detected by the model on two axes,
   one for frequency and one for magnitude
@@ -44,21 +64,7 @@ def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   m = s.sinusoidal if isinstance(s, SAMPLE) else s
   if ax is None:
     _, ax = plt.subplots(1, 2, sharex=True)
-  tmax = 0
-  reverse = getattr(m.tracker, "reverse", False)
-  if reverse:
-    if m.intermediate.save:
-      # If the audio is too short, there are no frames
-      stft = m.intermediate.get_state(deepcopy=False).get("stft", ())
-      tmax = len(stft) * m.h / m.fs
-    else:
-      tmax = max(((track["start_frame"] + track["freq"].size) * m.h / m.fs
-                  for track in m.tracks_),
-                 default=0)
-  for i, track in enumerate(m.tracks_):
-    t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
-    if reverse:
-      t_x = tmax - t_x
+  for i, (track, t_x) in enumerate(zip(m.tracks_, _tracks_times(m))):
     b = _is_beat(s, i)
     ax[0].plot(t_x, track["freq"], "--" if b else "-", **kwargs)
     ax[1].plot(t_x, track["mag"], "--" if b else "-", **kwargs)
@@ -89,8 +95,7 @@ def sine_tracking_3d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None):
   m = s.sinusoidal if isinstance(s, SAMPLE) else s
   if ax is None:
     ax = plt.axes(projection="3d")
-  for i, track in enumerate(m.tracks_):
-    t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
+  for i, (track, t_x) in enumerate(zip(m.tracks_, _tracks_times(m))):
     ax.plot(t_x, track["freq"], track["mag"], "--" if _is_beat(s, i) else "-")
 
   ax.set_xlabel("time (s)")
-- 
2.43.0


From be6a9478c841a8972668ade83ccec77d573657e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 30/67] fix: plot comparisons of a single beat regression and
 label the bottom time axes

---
 sample/plots.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sample/plots.py b/sample/plots.py
index 21f76f8..40cd690 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -297,11 +297,12 @@ def beatsdrop_comparison(
     shape = 3, len(beatsdrops)
     if transpose:
       shape = reversed(shape)
-    axs = fig.subplots(*shape, sharex=True)
+    axs = fig.subplots(*shape, sharex=True, squeeze=False)
     if transpose:
       axs = axs.T
   else:
     transpose = False
+    axs = np.asarray(axs)
     if fig is None:
       fig = axs[0][0].get_figure()
 
@@ -407,8 +408,8 @@ def beatsdrop_comparison(
       yl.set_horizontalalignment("left")
       yl.set_verticalalignment("bottom")
       ax.yaxis.set_label_coords(-0.05, 1.01)
-  for c in range(axs.shape[0]):
-    axs[c, -1].set_xlabel("time (s)")
   if transpose:
     axs = axs.T
+  for ax in axs[-1, :]:
+    ax.set_xlabel("time (s)")
   return fig, axs
-- 
2.43.0


From 4c7c51f5321f352ae754a85e82bcd54dd5588743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:30 +0000
Subject: [PATCH 31/67] fix: plot magnitudes when the resynthesis plot has no
 decibel floor

---
 sample/plots.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sample/plots.py b/sample/plots.py
index 40cd690..4368401 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -246,6 +246,9 @@ def resynthesis(x: np.ndarray,
     flim, x_tf = tf_fun(x_m, fs=fs)
     if db_floor is not None:
       x_tf = dsp_utils.complex2db(x_tf, floor=db_floor, floor_db=True)
+    elif np.iscomplexobj(x_tf):
+      # Complex values cannot be plotted
+      x_tf = np.abs(x_tf)
     tf_plot(x_tf, tlim=t[[0, -1]], flim=flim, ax=axs[i + 1], **tf_kws_)
     axs[i + 1].set_title(k)
     if foreach is not None:
-- 
2.43.0


From 1c6b7777b3688516603836c288969079ad19049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:55 +0000
Subject: [PATCH 32/67] fix: do not drop text between two references in
 displayed parameter descriptions

---
 sample/ipython.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/ipython.py b/sample/ipython.py
index 7e309ad..d0e10c7 100644
--- a/sample/ipython.py
+++ b/sample/ipython.py
@@ -41,7 +41,7 @@ class CollapsibleModelParams(ipd.HTML):
     model: Model of which the parameters should be displayed"""
 
   # Regex for sphinx commands
-  _SPHINXCLASS_REGEX = re.compile(r"\:\w+\:`.+`")
+  _SPHINXCLASS_REGEX = re.compile(r"\:\w+\:`[^`]+`")
   _SINGLE_WS_REGEX = re.compile(r"\s")
 
   @staticmethod
-- 
2.43.0


From 599b9b778562747fbcc50225ff964d6df5d536fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:50 +0000
Subject: [PATCH 33/67] fix: detrending a single sample returns a
 one-dimensional array

---
 sample/utils/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index 9f1a658..ff7915d 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -232,7 +232,7 @@ def detrend(y: np.ndarray,
   y = column(y)
   x = column(x)
   model.fit(x, y)
-  return np.squeeze(y - model.predict(x))
+  return np.reshape(y - model.predict(x), newshape=-1)
 
 
 def f2bin(f: np.ndarray, nfft: int, fs: float = 1) -> np.ndarray:
-- 
2.43.0


From 1343354d62917e26e6267657912a04fd4f639510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:59 +0000
Subject: [PATCH 34/67] fix: convert scalar frequencies to bins

---
 sample/utils/dsp.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index ff7915d..23f53b6 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -245,9 +245,7 @@ def f2bin(f: np.ndarray, nfft: int, fs: float = 1) -> np.ndarray:
 
   Returns:
     array: Bin indices"""
-  out = np.multiply(f, nfft / fs)
-  out = np.ceil(out, out=out)
-  return out.astype(int)
+  return np.ceil(np.multiply(f, nfft / fs)).astype(int)
 
 
 @utils.numpy_out(dtype=float)
-- 
2.43.0


From 000b3f1f61b5d5fbfec2ad75a6a71dab8cf95b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:28 +0000
Subject: [PATCH 35/67] fix: half-wave rectification of integers with a
 threshold given by name

---
 sample/psycho.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index e94476e..f8c997c 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -927,7 +927,14 @@ class GammatoneFilterbank:
 
 
 @utils.numpy_out
-def hwr(a: np.ndarray, th: float = 0, out: Optional[np.ndarray] = None):
+def _hwr(a: np.ndarray, th: float, out: Optional[np.ndarray] = None):
+  return np.maximum(a, th, out=out)
+
+
+def hwr(a: np.ndarray,
+        th: float = 0,
+        out: Optional[np.ndarray] = None,
+        **kwargs):
   """Half-wave rectification
 
   Args:
@@ -937,7 +944,8 @@ def hwr(a: np.ndarray, th: float = 0, out: Optional[np.ndarray] = None):
 
   Returns:
     array: Half-wave rectified copy of input signal"""
-  return np.maximum(a, th, out=out)
+  # The data type of the output depends on the threshold, too
+  return _hwr(a, th, out=out, **kwargs)
 
 
 @utils.deprecated_argument("analytical", "analytic")
-- 
2.43.0


From 3fee17029eb43ac068da41a7391b781d322f9c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:39 +0000
Subject: [PATCH 36/67] fix: integer overflows in ERB-rate conversions

---
 sample/psycho.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index f8c997c..94cb551 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -285,9 +285,9 @@ def hz2cams(
     array: Frequency value(s) in Cams"""
   # f + 312
   tmp = np.empty_like(out)
-  np.add(f, 312, out=tmp)
+  np.add(f, 312, out=tmp, dtype=tmp.dtype)
   # 11.17 * logn((f + 312) / (f + 14675)) + 43.0
-  np.add(f, 14675, out=out)
+  np.add(f, 14675, out=out, dtype=out.dtype)
   np.true_divide(tmp, out, out=out)
   np.log(out, out=out)
   np.multiply(11.17, out, out=out)
@@ -331,7 +331,7 @@ def cams2hz(
     array: Frequency value(s) in Hz"""
   # k = e^((c - 43) / 11.17)
   k = np.empty_like(out)
-  np.subtract(c, 43, out=k)
+  np.subtract(c, 43, out=k, dtype=k.dtype)
   np.true_divide(k, 11.17, out=k)
   np.exp(k, out=k)
   # f = (312 - 14675 * k) / (k - 1)
-- 
2.43.0


From fe197c78df08c7f176434dc032b5ab2f6221f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:40 +0000
Subject: [PATCH 37/67] fix: decibel values of the lowest integers

---
 sample/utils/dsp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index 23f53b6..5badf0f 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -150,7 +150,8 @@ def complex2db(c, out: Optional[np.ndarray] = None, **kwargs):
 
   Returns:
     array: Decibel values"""
-  np.abs(c, out=out)
+  # The absolute value of the lowest integer is not representable as integer
+  np.abs(np.multiply(1.0, c), out=out)
   return a2db(out, out=out, **kwargs)
 
 
-- 
2.43.0


From 2954dc3d82822cc626cfd132b33325fa6ed07bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:09 +0000
Subject: [PATCH 38/67] fix: hinge function of integers with coefficients given
 by name

---
 sample/hinge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/hinge.py b/sample/hinge.py
index 70254f1..a866edd 100644
--- a/sample/hinge.py
+++ b/sample/hinge.py
@@ -11,7 +11,7 @@ import sample.utils.learn
 utils = sample.utils
 
 
-@utils.numpy_out
+@utils.numpy_out(dtype=float)
 def hinge_function(x: np.ndarray,
                    a: float,
                    k: float,
-- 
2.43.0


From 7a6896a22378a88452c8963984930040b1814272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:04 +0000
Subject: [PATCH 39/67] fix: worker processes that cannot be terminated after
 playing audio

---
 sample/widgets/audio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sample/widgets/audio.py b/sample/widgets/audio.py
index 2d5a08c..99a730c 100644
--- a/sample/widgets/audio.py
+++ b/sample/widgets/audio.py
@@ -1,8 +1,12 @@
 """Utilities for audio"""
 import io
+import os
 import threading
 
 import numpy as np
+# SDL would replace the handlers of SIGINT and SIGTERM. Worker processes
+# would inherit them and it would not be possible to terminate them
+os.environ.setdefault("SDL_NO_SIGNAL_HANDLERS", "1")
 import pygame
 from pygame import mixer
 from scipy.io import wavfile
-- 
2.43.0


From ec9000a6bd080646f8a3b5e1ab10cc3b9e62e7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:12 +0000
Subject: [PATCH 40/67] fix: strided gammatone convolution with impulse
 responses of one sample

The padded input was written to the empty slice [0:-0]
---
 sample/psycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 94cb551..5b5f99b 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -842,7 +842,7 @@ class GammatoneFilterbank:
       else:
         # Zero-padding for full-convolution
         x_pad = np.zeros(x.size + 2 * (self._ir_size - 1), dtype=x.dtype)
-        x_pad[(self._ir_size - 1):-(self._ir_size - 1)] = x
+        x_pad[(self._ir_size - 1):(self._ir_size - 1 + x.size)] = x
         # Output delay (quantized to stride)
         offsets_s = self.offsets // stride
         # Input delay (quantization residual)
-- 
2.43.0


From 44e0f96effbf3e10349681bf2c81977aa09bbbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:12 +0000
Subject: [PATCH 41/67] fix: accept any sequence as input of cochleagram

As documented, not only arrays
---
 sample/psycho.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/psycho.py b/sample/psycho.py
index 5b5f99b..d7af971 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -1007,6 +1007,7 @@ def cochleagram(
       raise TypeError("cochleagram() missing required argument "
                       "'fs' for non-precomputed filterbank")
     filterbank = filterbank.precompute(fs=fs, analytic=analytic == "ir")
+  x = np.asarray(x)
   if analytic == "input":
     x = signal.hilbert(x)
   out = filterbank.convolve(x, method=method, stride=stride)
-- 
2.43.0


From d8c105fa3378334a20443e9edd53a9922aa9e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 42/67] fix: evaluation results not saved when resuming from a
 CSV file without checkpoints

---
 scripts/beatsdrop/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 6fcf8e9..ea1dc8f 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -532,7 +532,7 @@ def save_dataframe(args: argparse.Namespace):
   logger.debug("Args: %s", args)
   args.df = list2df(args.results, args.fieldnames)
   if args.csv_path is not None and (args.csv_path != args.last_file or
-                                    not args.resume):
+                                    not args.resume or args.seeds):
     logger.info("Writing CSV file: '%s'", args.csv_path)
     args.df.to_csv(args.csv_path)
   # Clean checkpoints
-- 
2.43.0


From 344f4db81566d475b40526e111ff959cde1a5823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 43/67] fix: checkpoints and results of the evaluation were
 left incomplete by an interruption

---
 scripts/beatsdrop/evaluation.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index ea1dc8f..ec4862a 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -399,6 +399,20 @@ def list2df(results: List[BeatsDROPEvalResult], fieldnames) -> "pd.DataFrame":
   return pd.DataFrame(data=data)
 
 
+def write_csv(df: "pd.DataFrame", path: str):
+  """Write a dataframe to a CSV file. The file is replaced only when
+  the dataframe is completely written, so that an interruption never leaves
+  a file with incomplete results
+
+  Args:
+    df (DataFrame): Dataframe to write
+    path (str): Output file path"""
+  tmp_path = os.path.join(os.path.dirname(path),
+                          f".{os.path.basename(path)}.tmp")
+  df.to_csv(tmp_path)
+  os.replace(tmp_path, path)
+
+
 def prepare_folders(args: argparse.Namespace):
   """Prepare folders for output, WAV and log files
 
@@ -516,7 +530,7 @@ def run_tests(args: argparse.Namespace):
             it.set_description(f"Checkpoint: '{args.last_file}'")
           else:
             logger.info("Writing checkpoint: '%s'", args.last_file)
-          list2df(args.results, args.fieldnames).to_csv(args.last_file)
+          write_csv(list2df(args.results, args.fieldnames), args.last_file)
   return args
 
 
@@ -534,7 +548,7 @@ def save_dataframe(args: argparse.Namespace):
   if args.csv_path is not None and (args.csv_path != args.last_file or
                                     not args.resume or args.seeds):
     logger.info("Writing CSV file: '%s'", args.csv_path)
-    args.df.to_csv(args.csv_path)
+    write_csv(args.df, args.csv_path)
   # Clean checkpoints
   if args.ckpt_path is not None:
     for fn in glob.glob(args.ckpt_path("*")):
-- 
2.43.0


From 32d650438919b873ac9b9775a6dbd9a57b063c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:25 +0000
Subject: [PATCH 44/67] fix: evaluation output path without a folder

---
 scripts/beatsdrop/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index ec4862a..3179cca 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -425,7 +425,7 @@ def prepare_folders(args: argparse.Namespace):
   logger.debug("Args: %s", args)
   # Make output file folder
   if args.output is not None:
-    os.makedirs(os.path.dirname(args.output), exist_ok=True)
+    os.makedirs(os.path.dirname(os.path.abspath(args.output)), exist_ok=True)
   # Make WAV folder
   if args.wav is None:
     args.wav_path = None
-- 
2.43.0


From 93bd29b60f29b2edc29dc02a59ae45c697def350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:25 +0000
Subject: [PATCH 45/67] fix: statistics of previous results were reported for
 new results

---
 scripts/beatsdrop/evaluation.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 3179cca..e0df120 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -557,6 +557,19 @@ def save_dataframe(args: argparse.Namespace):
   return args
 
 
+def is_precomputed(path: Optional[str], args: argparse.Namespace) -> bool:
+  """Check whether an output was already computed from the current results
+
+  Args:
+    path (str): Path of the file of the output
+    args (Namespace): CLI arguments
+
+  Returns:
+    bool: Whether the output can be read from file"""
+  return (path is not None and args.resume and not args.seeds and
+          os.path.isfile(path))
+
+
 def print_report(rank_result):
   """Prints report for autorank result
 
@@ -710,7 +723,8 @@ def statistical_tests(args: argparse.Namespace):
       kmk = f"{k}_{m}_ar"
       args.df[kmk] = c
       pops[kmk] = c
-  if args.rr_path is None or not os.path.exists(args.rr_path):
+  precomputed = is_precomputed(args.rr_path, args)
+  if not precomputed:
     logger.info("Running statistical tests")
     kws = {
         "data": pd.DataFrame(pops),
@@ -725,7 +739,7 @@ def statistical_tests(args: argparse.Namespace):
   else:
     logger.info("Reading test results: '%s'", args.rr_path)
     args.rank_result = pickle.read_pickled(args.rr_path)
-  if args.rr_path is not None and not os.path.exists(args.rr_path):
+  if args.rr_path is not None and not precomputed:
     logger.info("Saving test results: '%s'", args.rr_path)
     pickle.save_pickled(args.rank_result, args.rr_path)
 
@@ -840,7 +854,7 @@ def decision_report(args):
   importance_fname = None if args.output is None else f"{args.output}_errors_"\
                                                        "feature_importance.csv"
   targets = ["beat", "single"]
-  if importance_fname is None or not os.path.isfile(importance_fname):
+  if not is_precomputed(importance_fname, args):
     dtc = sklearn.tree.DecisionTreeClassifier(random_state=42)
     n_samples = 1024
     n_folds = 16
-- 
2.43.0


From 5111766cdfc8e51f3c0d3500b5ab2ccf3fad0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:25 +0000
Subject: [PATCH 46/67] fix: feature importances not computed without a
 progress bar

---
 scripts/beatsdrop/evaluation.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index e0df120..596b5b8 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -869,13 +869,13 @@ def decision_report(args):
     it = enumerate(itertools.islice(rkf.split(df[features]), n_samples))
     if args.tqdm:
       it = tqdm.tqdm(it, total=n_samples, desc="Decision errors analysis")
-      for i, (train_index, _) in it:
-        for j, t in enumerate(targets):
-          dtc.fit(df[features].iloc[train_index], df[t].iloc[train_index])
-          idx = 2 * i + j
-          for k, v in zip(dtc.feature_names_in_, dtc.feature_importances_):
-            importances[k][idx] = v
-          importances["target"][idx] = t
+    for i, (train_index, _) in it:
+      for j, t in enumerate(targets):
+        dtc.fit(df[features].iloc[train_index], df[t].iloc[train_index])
+        idx = 2 * i + j
+        for k, v in zip(dtc.feature_names_in_, dtc.feature_importances_):
+          importances[k][idx] = v
+        importances["target"][idx] = t
     importances = pd.DataFrame(importances)
     if importance_fname is not None:
       logger.info("Writing report file: '%s'", importance_fname)
-- 
2.43.0


From ea78007e85698359235a8047045ea8dc18eef7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:49 +0000
Subject: [PATCH 47/67] fix: statistics of the evaluation are discarded before
 computing new results, and never left incomplete

---
 scripts/beatsdrop/evaluation.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 596b5b8..9bc19e5 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -494,6 +494,11 @@ def load_results(args: argparse.Namespace):
 
       seeds = filter(f, seeds)
   args.seeds = list(seeds)
+  if args.output is not None and (args.seeds or not args.resume):
+    # Outputs of the previous results are not valid for the new ones
+    for fn in ("rankresult.dat", "errors_feature_importance.csv"):
+      with contextlib.suppress(FileNotFoundError):
+        os.remove(f"{args.output}_{fn}")
   return args
 
 
@@ -557,19 +562,6 @@ def save_dataframe(args: argparse.Namespace):
   return args
 
 
-def is_precomputed(path: Optional[str], args: argparse.Namespace) -> bool:
-  """Check whether an output was already computed from the current results
-
-  Args:
-    path (str): Path of the file of the output
-    args (Namespace): CLI arguments
-
-  Returns:
-    bool: Whether the output can be read from file"""
-  return (path is not None and args.resume and not args.seeds and
-          os.path.isfile(path))
-
-
 def print_report(rank_result):
   """Prints report for autorank result
 
@@ -723,8 +715,7 @@ def statistical_tests(args: argparse.Namespace):
       kmk = f"{k}_{m}_ar"
       args.df[kmk] = c
       pops[kmk] = c
-  precomputed = is_precomputed(args.rr_path, args)
-  if not precomputed:
+  if args.rr_path is None or not os.path.exists(args.rr_path):
     logger.info("Running statistical tests")
     kws = {
         "data": pd.DataFrame(pops),
@@ -739,9 +730,10 @@ def statistical_tests(args: argparse.Namespace):
   else:
     logger.info("Reading test results: '%s'", args.rr_path)
     args.rank_result = pickle.read_pickled(args.rr_path)
-  if args.rr_path is not None and not precomputed:
+  if args.rr_path is not None and not os.path.exists(args.rr_path):
     logger.info("Saving test results: '%s'", args.rr_path)
-    pickle.save_pickled(args.rank_result, args.rr_path)
+    pickle.save_pickled(args.rank_result, f"{args.rr_path}.tmp")
+    os.replace(f"{args.rr_path}.tmp", args.rr_path)
 
   with print_or_write(
       args.output if args.output is None else f"{args.output}_report.tex"):
@@ -854,7 +846,7 @@ def decision_report(args):
   importance_fname = None if args.output is None else f"{args.output}_errors_"\
                                                        "feature_importance.csv"
   targets = ["beat", "single"]
-  if not is_precomputed(importance_fname, args):
+  if importance_fname is None or not os.path.isfile(importance_fname):
     dtc = sklearn.tree.DecisionTreeClassifier(random_state=42)
     n_samples = 1024
     n_folds = 16
@@ -879,7 +871,7 @@ def decision_report(args):
     importances = pd.DataFrame(importances)
     if importance_fname is not None:
       logger.info("Writing report file: '%s'", importance_fname)
-      importances.to_csv(importance_fname)
+      write_csv(importances, importance_fname)
   else:
     importances = pd.read_csv(importance_fname)
   # ---------------------------------------------------------------------------
-- 
2.43.0


From 02f3226fe16843baa9ff797fa8c99eb80534e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:00 +0000
Subject: [PATCH 48/67] fix: previous benchmark results were lost by an
 interruption while writing

---
 scripts/cim22/performance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/cim22/performance.py b/scripts/cim22/performance.py
index 6aaec13..58cd465 100644
--- a/scripts/cim22/performance.py
+++ b/scripts/cim22/performance.py
@@ -361,7 +361,11 @@ def main(*argv):
     data = clean_data(data, args)
     df = pd.DataFrame(data=data)
     if args.output is not None:
-      df.to_csv(args.output)
+      # Replace the previous results only when the new ones are written
+      tmp_path = os.path.join(os.path.dirname(args.output),
+                              f".{os.path.basename(args.output)}.tmp")
+      df.to_csv(tmp_path)
+      os.replace(tmp_path, args.output)
 
   log_speedup_imshow(compute_speedup(df, args))
 
-- 
2.43.0


From 2f8dc2dc1cabbfa14305521af1b7e5507ff0a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:00 +0000
Subject: [PATCH 49/67] fix: benchmark filters ignored the sampling frequency

---
 scripts/cim22/cochleagram_setup.py.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cim22/cochleagram_setup.py.in b/scripts/cim22/cochleagram_setup.py.in
index ac64c3d..282ff50 100644
--- a/scripts/cim22/cochleagram_setup.py.in
+++ b/scripts/cim22/cochleagram_setup.py.in
@@ -8,5 +8,5 @@ np.random.seed(42)
 x = np.random.randn(np.round(fs * dur).astype(int))
 stride = max(1, np.round(fs * {stride_time}).astype(int))
 
-fbank = psycho.GammatoneFilterbank(normalize=True).precompute(fs=44100,
+fbank = psycho.GammatoneFilterbank(normalize=True).precompute(fs=fs,
                                                               analytic=True)
-- 
2.43.0


From cfdd33986ed1cba87240d6f708a764965ae1676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:16 +0000
Subject: [PATCH 50/67] fix: checkpoints not found when the output path has
 special characters

---
 scripts/beatsdrop/evaluation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 9bc19e5..1e8668d 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -457,10 +457,10 @@ def load_results(args: argparse.Namespace):
   args.checkpoints = []
   if args.output is not None:
     args.csv_path = f"{args.output}.csv"
-    args.ckpt_path = f"{args.output}.ckpt-{{}}".format
+    args.ckpt_path = lambda i: f"{args.output}.ckpt-{i}"
     if args.resume:
       # Find most recent checkpoint
-      for fn in glob.glob(args.ckpt_path("*")):
+      for fn in glob.glob(f"{glob.escape(args.output)}.ckpt-*"):
         try:
           pd.read_csv(fn)
         except Exception:  # pylint: disable=W0703
@@ -556,7 +556,7 @@ def save_dataframe(args: argparse.Namespace):
     write_csv(args.df, args.csv_path)
   # Clean checkpoints
   if args.ckpt_path is not None:
-    for fn in glob.glob(args.ckpt_path("*")):
+    for fn in glob.glob(f"{glob.escape(args.output)}.ckpt-*"):
       logger.debug("Deleting checkpoint: '%s'", fn)
       os.remove(fn)
   return args
-- 
2.43.0


From bc82ff7b9a1768ec4e18d85217ffc2e37704c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:56 +0000
Subject: [PATCH 51/67] fix: a notebook was lost when it could not be written
 or the formatter was interrupted

---
 scripts/utils/yapf_nbformat.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scripts/utils/yapf_nbformat.py b/scripts/utils/yapf_nbformat.py
index 4bbbc07..12dcf2e 100644
--- a/scripts/utils/yapf_nbformat.py
+++ b/scripts/utils/yapf_nbformat.py
@@ -5,6 +5,7 @@ import itertools
 import logging
 import os
 import re
+import shutil
 import sys
 from typing import Optional, Tuple
 
@@ -125,6 +126,7 @@ def format_nb(filepath: str,
   logger.info("  %s", filepath)
   dots = "." * len(filepath)
 
+  filepath = os.path.realpath(filepath)
   with open(filepath, mode="r", encoding="utf-8") as f:
     notebook = nbformat.read(f, as_version=nbformat.NO_CONVERT)
   nbformat.validate(notebook)
@@ -162,8 +164,16 @@ def format_nb(filepath: str,
       logger.info("[Cell %d]\n%s", i, d)
   else:
     logger.info("  %s %s", dots, "\u21BB")
-    with open(filepath, mode="w", encoding="utf-8") as f:
-      nbformat.write(notebook, f, version=nbformat.NO_CONVERT)
+    tmp = f"{filepath}.tmp"
+    try:
+      with open(tmp, mode="w", encoding="utf-8") as f:
+        nbformat.write(notebook, f, version=nbformat.NO_CONVERT)
+      shutil.copymode(filepath, tmp)
+      os.replace(tmp, filepath)
+    except BaseException:
+      if os.path.exists(tmp):
+        os.remove(tmp)
+      raise
   return bool(diff)
 
 
-- 
2.43.0


From 4a164afd317aaf7b73abbd3e4e63a9776ed1611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:56 +0000
Subject: [PATCH 52/67] fix: commands were left escaped in notebooks when the
 style has other spaces before comments

---
 scripts/utils/yapf_nbformat.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/scripts/utils/yapf_nbformat.py b/scripts/utils/yapf_nbformat.py
index 12dcf2e..543ddca 100644
--- a/scripts/utils/yapf_nbformat.py
+++ b/scripts/utils/yapf_nbformat.py
@@ -19,7 +19,7 @@ _default_style_file = os.path.realpath(
     os.path.join(os.path.dirname(__file__), "..", "..", ".style.yapf"))
 _command_pattern = re.compile(r"\s*(!|%).*")
 _command_escape_comment = "  # escaped-for-yapf"
-_command_escape_pattern = re.compile(r"\s*pass  # (!|%).*" +
+_command_escape_pattern = re.compile(r"(\s*)pass\s+# ((?:!|%).*)" +
                                      _command_escape_comment)
 
 
@@ -101,11 +101,8 @@ def _unwrap_command_line(s: str) -> str:
 
   Returns:
     str: Line to comment"""
-  if not _command_escape_pattern.fullmatch(s):
-    return s
-  indent = "".join(itertools.takewhile(lambda c: c.isspace(), s))
-  cmd = s[(len(indent) + 8):-len(_command_escape_comment)]
-  return indent + cmd
+  m = _command_escape_pattern.fullmatch(s)
+  return s if m is None else "".join(m.groups())
 
 
 def format_nb(filepath: str,
-- 
2.43.0


From ac12a6e98727c0f9da8bd89f0b296578851d8d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:56 +0000
Subject: [PATCH 53/67] fix: formatting notebooks broke strings with form feeds
 or Unicode line separators

---
 scripts/utils/yapf_nbformat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/utils/yapf_nbformat.py b/scripts/utils/yapf_nbformat.py
index 543ddca..1c3c6b6 100644
--- a/scripts/utils/yapf_nbformat.py
+++ b/scripts/utils/yapf_nbformat.py
@@ -136,15 +136,16 @@ def format_nb(filepath: str,
       lambda c: "# yapf: ignore" not in c[1]["source"].split("\n", 1)[0], cells)
   for i, cell in cells:
     src_changed = False
-    new_src = "\n".join(map(_wrap_command_line, cell["source"].splitlines()))
+    new_src = "\n".join(map(_wrap_command_line, cell["source"].split("\n")))
     try:
       new_src, _ = yapf_api.FormatCode(new_src, style_config=style)
+      new_src = new_src.rstrip("\n")
     except yapf_api.errors.YapfError as e:
       se = f"# yapf{e.args[0][9:]}"
       if se not in new_src and tag_errors:
         new_src += "\n" + se
         src_changed = True
-    new_src = "\n".join(map(_unwrap_command_line, new_src.splitlines()))
+    new_src = "\n".join(map(_unwrap_command_line, new_src.split("\n")))
     src_changed = src_changed or cell["source"] != new_src
     if src_changed:
       # pylint: disable=W0125
-- 
2.43.0


From 28cf1ab18cbbdcf3e4b4e8e466496035336bfe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:56 +0000
Subject: [PATCH 54/67] fix: formatting notebooks broke strings with lines that
 look like commands

---
 scripts/utils/yapf_nbformat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/utils/yapf_nbformat.py b/scripts/utils/yapf_nbformat.py
index 1c3c6b6..d616656 100644
--- a/scripts/utils/yapf_nbformat.py
+++ b/scripts/utils/yapf_nbformat.py
@@ -146,6 +146,9 @@ def format_nb(filepath: str,
         new_src += "\n" + se
         src_changed = True
     new_src = "\n".join(map(_unwrap_command_line, new_src.split("\n")))
+    if _command_escape_comment in new_src:
+      logger.warning("  Cell %d can not be formatted", i + 1)
+      continue
     src_changed = src_changed or cell["source"] != new_src
     if src_changed:
       # pylint: disable=W0125
-- 
2.43.0


From e713d14bfb9683099861a66a79ac4c61b0ffcb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:56 +0000
Subject: [PATCH 55/67] fix: cells in other languages were formatted as Python

---
 scripts/utils/yapf_nbformat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/utils/yapf_nbformat.py b/scripts/utils/yapf_nbformat.py
index d616656..be93636 100644
--- a/scripts/utils/yapf_nbformat.py
+++ b/scripts/utils/yapf_nbformat.py
@@ -18,6 +18,8 @@ logger = logging.getLogger("YAPF-Notebook")
 _default_style_file = os.path.realpath(
     os.path.join(os.path.dirname(__file__), "..", "..", ".style.yapf"))
 _command_pattern = re.compile(r"\s*(!|%).*")
+_other_language_pattern = re.compile(
+    r"\s*%%(?!(?:capture|prun|time|timeit)\b)")
 _command_escape_comment = "  # escaped-for-yapf"
 _command_escape_pattern = re.compile(r"(\s*)pass\s+# ((?:!|%).*)" +
                                      _command_escape_comment)
@@ -134,6 +136,8 @@ def format_nb(filepath: str,
   cells = filter(lambda c: not c[1]["source"].isspace(), cells)
   cells = filter(
       lambda c: "# yapf: ignore" not in c[1]["source"].split("\n", 1)[0], cells)
+  cells = filter(lambda c: not _other_language_pattern.match(c[1]["source"]),
+                 cells)
   for i, cell in cells:
     src_changed = False
     new_src = "\n".join(map(_wrap_command_line, cell["source"].split("\n")))
-- 
2.43.0


From 68377d37bc1f43787836407ee9947bb6c8201a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:56 +0000
Subject: [PATCH 56/67] fix: changelog of development versions not found

---
 scripts/utils/extract_changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/utils/extract_changelog.py b/scripts/utils/extract_changelog.py
index f416cde..d08e814 100644
--- a/scripts/utils/extract_changelog.py
+++ b/scripts/utils/extract_changelog.py
@@ -52,7 +52,7 @@ def main(*argv):
   args, _ = ArgParser(description=__doc__).parse_known_args(argv)
   filename = "".join(
       itertools.takewhile(lambda c: c == "_" or c.isdigit(),
-                          args.version.replace(".", "_")))
+                          args.version.replace(".", "_"))).rstrip("_")
   filepath = os.path.join(args.dir, f"v{filename}.md")
   with open(filepath, mode="r", encoding="utf-8") as fin:
     with open_if_any(args.output, mode="w") as fout:
-- 
2.43.0


From d62fb8675b80ce4252879a34648fbd666ba748c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:56 +0000
Subject: [PATCH 57/67] fix: unsigned samples in the BeatsDROP example

---
 scripts/beatsdrop/example.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/example.py b/scripts/beatsdrop/example.py
index b06f88f..0e8c853 100644
--- a/scripts/beatsdrop/example.py
+++ b/scripts/beatsdrop/example.py
@@ -134,7 +134,12 @@ def load_audio(args, dtype=np.float64):
   if np.issubdtype(args.x.dtype, np.integer):
     logger.debug("Converting to %s input of type %s", dtype.__name__,
                  args.x.dtype)
-    args.x = np.true_divide(args.x, -np.iinfo(args.x.dtype).min, dtype=dtype)
+    if np.issubdtype(args.x.dtype, np.unsignedinteger):
+      # Unsigned PCM samples are centered around the middle of the range
+      mid = np.iinfo(args.x.dtype).max // 2 + 1
+      args.x = np.true_divide(np.subtract(args.x, mid, dtype=dtype), mid)
+    else:
+      args.x = np.true_divide(args.x, -np.iinfo(args.x.dtype).min, dtype=dtype)
   if np.ndim(args.x) > 1:
     logger.debug("Converting to mono from %d channels", args.x.shape[1])
     args.x = np.mean(args.x, axis=-1)
-- 
2.43.0


From 5e04cdccf5ed990ff67a53881efb71a4a0fbb9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:56 +0000
Subject: [PATCH 58/67] fix: empty region when its end is after the end of the
 sound

---
 scripts/beatsdrop/example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/example.py b/scripts/beatsdrop/example.py
index 0e8c853..05b9922 100644
--- a/scripts/beatsdrop/example.py
+++ b/scripts/beatsdrop/example.py
@@ -173,7 +173,7 @@ def crop_audio(args):
     if i1 is None:
       i1 = min(ons[np.greater(ons, i0)], default=args.x.size)
     if i0 is None:
-      i0 = max(ons[np.less(ons, i1)], default=0)
+      i0 = max(ons[np.less(ons, min(i1, args.x.size))], default=0)
   else:
     i0 = int(args.crop_start * args.fs)
     i1 = int(args.crop_end * args.fs)
-- 
2.43.0


From d11d94fc93063d1f755b1457820adf048e0b588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:08 +0000
Subject: [PATCH 59/67] fix: storage given to the analysis not reset

---
 sample/sms/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sms/sm.py b/sample/sms/sm.py
index f5d3652..cddc3cf 100644
--- a/sample/sms/sm.py
+++ b/sample/sms/sm.py
@@ -313,8 +313,8 @@ class SinusoidalModel(base.TransformerMixin, base.BaseEstimator):
     # Avoid _fit_args appearing in signatures, since it's considered
     # an implementation detail
     fit_args = kwargs.pop("_fit_args", None)
-    self.intermediate.reset()
     self.set_params(**kwargs)
+    self.intermediate.reset()
     self.tracker.reset()
     self.w_ = self._normalized_window
     if getattr(self.tracker, "reverse", False):
-- 
2.43.0


From 11be553b0c73e0660519b633b3d3459c1e8e1cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:08 +0000
Subject: [PATCH 60/67] fix: compute mel-spectrograms of integer magnitudes and
 with integer filters for every power

The powers were written back into the arrays of magnitudes, which raised
UFuncOutputCastingError for integers.
---
 sample/psycho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index d7af971..851f06d 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -1133,10 +1133,10 @@ def stft2mel(stft: Sequence[Sequence[complex]],
     stft = np.abs(stft)
     if power != 1:
       p = True
-      np.power(stft, power, out=stft)
+      stft = np.power(stft, power)
   melspec = filterbank @ stft
   if p:
-    np.power(melspec, 1 / power, out=melspec)
+    melspec = np.power(melspec, 1 / power)
   return melspec, c_freqs
 
 
-- 
2.43.0


From 0a47c3946aa426ec7256d28da0eaabbd0507bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:34 +0000
Subject: [PATCH 61/67] fix: report the confidence intervals of newer versions
 of autorank

The column 'CI' was replaced by 'ci_lower' and 'ci_upper', so that the
report of the evaluation raised KeyError.
---
 scripts/beatsdrop/evaluation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 1e8668d..26ff22d 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -638,7 +638,12 @@ def print_report(rank_result):
     for m, mk in models:
       median = rank_result.rankdf["median"][f"{k}_{m}_ar"]
       print(f"& {median:.3f}")
-      ci = rank_result.rankdf["CI"][f"{k}_{m}_ar"]
+      if "CI" in rank_result.rankdf:
+        ci = rank_result.rankdf["CI"][f"{k}_{m}_ar"]
+      else:  # newer versions of autorank have a column per bound
+        ci_lower = rank_result.rankdf["ci_lower"][f"{k}_{m}_ar"]
+        ci_upper = rank_result.rankdf["ci_upper"][f"{k}_{m}_ar"]
+        ci = f"[{ci_lower:.3f}, {ci_upper:.3f}]"
       print(f"& {ci}")
   print(r"\\\bottomrule\\")
   print(r"\end{tabular}")
-- 
2.43.0


From bb7f9dd08bb23bc52120e922c927f1ebbe040af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:34 +0000
Subject: [PATCH 62/67] fix: report the medians of errors also when they all
 look normal

The statistical tests switched to the mean of the errors, and the report
raised KeyError.
---
 scripts/beatsdrop/evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 26ff22d..7c94ffa 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -727,6 +727,7 @@ def statistical_tests(args: argparse.Namespace):
         "alpha": args.alpha,
         "verbose": False,
         "order": "ascending",
+        "force_mode": "nonparametric",  # medians are reported
         "approach": "frequentist" if args.frequentist else "bayesian"
     }
     if not args.frequentist:
-- 
2.43.0


From ea3d24d261d07b78a43fa42288301132ccf22abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:42 +0000
Subject: [PATCH 63/67] fix: fractions of decisions that are all the same

---
 scripts/beatsdrop/evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 7c94ffa..663d5e1 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -966,6 +966,7 @@ def decision_report(args):
       axs[0].set_title("Histogram")
 
       # Posterior
+      counts = np.atleast_2d(counts)  # there may be only one label
       posterior = counts / np.sum(counts, axis=0)
 
       bw = np.median(np.diff(bins)) / (len(labels) + 0.5)
-- 
2.43.0


From dfd3f602bee9471d530850dad2205b6c12bb335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:42 +0000
Subject: [PATCH 64/67] fix: not-a-number strip time is not a time

---
 sample/widgets/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index 5094e06..7e6628e 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -69,7 +69,7 @@ def strip_time_parse(x: str) -> Optional[float]:
     x = float(x)
   except ValueError:
     return None
-  if x <= 0:
+  if not x > 0:  # not positive, or not a number
     return None
   return x
 
-- 
2.43.0


From d0d767a542dca886a016bff78e6e33d67954a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:42 +0000
Subject: [PATCH 65/67] fix: infinite strip time

---
 sample/sms/mm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample/sms/mm.py b/sample/sms/mm.py
index 545ba18..769a81d 100644
--- a/sample/sms/mm.py
+++ b/sample/sms/mm.py
@@ -96,8 +96,9 @@ class ModalTracker(sm.SineTracker):
   @property
   def strip_n(self):
     """Strip time (in frames)"""
-    return None if self.strip_t is None else math.ceil(self.strip_t *
-                                                       self.frame_rate)
+    if self.strip_t is None or self.strip_t == math.inf:
+      return None
+    return math.ceil(self.strip_t * self.frame_rate)
 
   def track_ok(self, track: dict) -> bool:
     """Check if a deactivated track is ok to be saved
-- 
2.43.0


From 6f058380ddf5574ce954b8c95d278f83f777055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:14 +0000
Subject: [PATCH 66/67] fix: decision of the track nearest to a partial when a
 merged track has gaps

---
 scripts/beatsdrop/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 663d5e1..e3425b6 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -322,7 +322,7 @@ def test_case_decision(
     with warnings.catch_warnings():
       warnings.simplefilter("ignore")
       s.fit(x, sinusoidal__tracker__fs=fs)
-    median_freqs = np.vectorize(lambda track: np.median(track["freq"]))(
+    median_freqs = np.vectorize(lambda track: np.nanmedian(track["freq"]))(
         s.sinusoidal.tracks_)
 
     res = {
-- 
2.43.0


From f697d6760533cf1f7aa065977502c43f657e93c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:14 +0000
Subject: [PATCH 67/67] fix: deprecated sample_kw with remap=None or
 sample_kw=None raised TypeError

---
 sample/optimize.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index 836de23..2b52bd0 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -70,6 +70,16 @@ def sample_kwargs_remapper(sinusoidal__log_n: Optional[int] = None,
   return kwargs
 
 
+def _remap_sample_kw(sample_kw: Optional[Dict[str, Any]] = None,
+                     remap: Optional[Callable[...,
+                                              Dict[str, Any]]] = \
+                     sample_kwargs_remapper,
+                     **kwargs) -> Dict[str, Any]:  # pylint: disable=W0613
+  """Remap the values of the deprecated argument :data:`sample_kw`"""
+  sample_kw = utils.default_kws(sample_kw)
+  return sample_kw if remap is None else remap(**sample_kw)
+
+
 class SAMPLEOptimizer:
   """Hyperparameter optimizer for a SAMPLE model,
   based on Gaussian Process minimization
@@ -93,16 +103,14 @@ class SAMPLEOptimizer:
   @utils.deprecated_argument(
       "sample_fn",
       convert=lambda _, **kwargs:
-      ("model", kwargs["sample_fn"]
-       (**kwargs.get("remap", sample_kwargs_remapper)(**({} if kwargs.get(
-           "sample_kw", None) is None else kwargs.get("sample_kw", None))))),
+      ("model", kwargs["sample_fn"](**_remap_sample_kw(**kwargs))),
       msg="Provide a sample.SAMPLE instance with the desired parameters, "
       "instead of constructor and arguments")
   @utils.deprecated_argument(
       "sample_kw",
       convert=lambda _, **kwargs:
-      ("model", kwargs.get("model", sample.SAMPLE()).set_params(**kwargs.get(
-          "remap", sample_kwargs_remapper)(**kwargs["sample_kw"]))),
+      ("model", kwargs.get("model", sample.SAMPLE()).set_params(
+          **_remap_sample_kw(**kwargs))),
       msg="Provide a sample.SAMPLE instance with the desired parameters, "
       "instead of constructor and arguments")
   def __init__(self,
-- 
2.43.0


SEEDS = [
dict(id="s01_tie_order", property="C01",
  needs="two peaks of equal distance from the same track, the louder one listed second, or more tracks than peaks",
  breaks="each track chooses its nearest peak instead of the peaks choosing by loudness",
  edits=[("sample/sms/sm.py", '''    peak_order = np.argsort(-pmag)  # decreasing order of magnitude
''', '''    # decreasing order of magnitude
    peak_order = np.argsort(-np.round(pmag, 1), kind="stable")
''')],
  demo='''
import numpy as np
from sample.sms import sm
t = sm.SineTracker(fs=100, h=1, min_sine_dur=0, freq_dev_offset=30, freq_dev_slope=0).reset()
a = np.array
t(a([100.]), a([-10.]), a([0.]))
t(a([95., 101.]), a([-10.02, -10.01]), a([0., 0.]))
t(a([101.]), a([-10.]), a([0.]))
r = sorted((int(x["start_frame"]), x["freq"].tolist()) for x in t.all_tracks_)
assert r == [(0, [100., 101., 101.])], r
'''),
dict(id="s02_strip_zero", property="C02",
  needs="a strip time of zero",
  breaks="a strip time of zero does not hide the tracks with a later onset",
  edits=[("sample/sms/mm.py", '''    if self.strip_n is None:
      return tracks
''', '''    if not self.strip_n:
      return tracks
''')],
  demo='''
import numpy as np
from sample.sms import mm
t = mm.ModalTracker(fs=100, h=1, min_sine_dur=0, strip_t=0, merge_strategy="single").reset()
a = np.array
t(a([500.]), a([-10.]), a([0.]))
for k in range(4):
  t(a([500., 900.]), a([-11. - k, -12. - k]), a([0., 0.]))
r = sorted(int(x["start_frame"]) for x in t.all_tracks_)
assert r == [0], r
'''),
dict(id="s02_adjacent_merge", property="C02",
  needs="a track that ends in the frame before a track of nearly the same frequency starts",
  breaks="the compatible track that has just ended is not joined unless a whole frame passes (gap of two)",
  edits=[("sample/sms/mm.py", '''        pad = np.full(t["start_frame"] - u["start_frame"] - u["mag"].size,
                      np.nan)
''', '''        pad = np.full(t["start_frame"] - u["start_frame"] - u["mag"].size,
                      np.nan, dtype=t["freq"].dtype)
        # Restart the count from the end of the first segment
        t = {**t, "mag": np.minimum(t["mag"], np.nanmax(u["mag"]))}
''')],
  demo='''
import numpy as np
from sample.sms import mm
t = mm.ModalTracker(fs=100, h=1, min_sine_dur=0, merge_strategy="single").reset()
a = np.array
for m in (-20., -21., None, -10., -11., None):
  if m is None:
    t(a([]), a([]), a([]))
  else:
    t(a([500.]), a([m]), a([0.]))
r = [x["mag"] for x in t.all_tracks_]
assert len(r) == 1 and np.array_equal(r[0], [-20., -21., np.nan, -10., -11.], equal_nan=True), r
'''),
dict(id="s04_median_gap", property="C04",
  needs="a frequency reduction given by the user, for tracks joined with a gap",
  breaks="tracks with a gap ignore the configured frequency reduction",
  edits=[("sample/sample.py", '''    f = self.freq_reduce(track["freq"])
''', '''    # Segments of joined tracks count according to their length
    gaps = np.flatnonzero(np.diff(t) > 1.5 * np.median(np.diff(t))) + 1
    f = self.freq_reduce(track["freq"]) if gaps.size == 0 else np.mean(
        np.repeat([self.freq_reduce(g) for g in np.split(track["freq"], gaps)],
                  np.diff([0, *gaps, len(t)])))
''')],
  demo='''
import numpy as np
from sample import SAMPLE
m = SAMPLE(freq_reduce=np.max)
t = np.array([0., .1, .2, .5, .6, .7])
track = dict(freq=np.array([100., 101., 102., 104., 103., 102.]), mag=-10. - 20 * t, phase=np.zeros(6))
(f, d, a), = m._fit_track(0, t, track)
assert f == 104., f
'''),
dict(id="s04_reverse_flip", property="C04",
  needs="a reversed analysis of a sound that does not decay exactly",
  breaks="time axis of reversed analyses is off by one sample (sound of n samples ends at (n - 1) / fs)",
  edits=[("sample/sample.py", '''      time_axis = np.size(x) / self.sinusoidal.fs - time_axis
''', '''      time_axis = (np.size(x) - np.size(x) % 2) / self.sinusoidal.fs - time_axis
''')],
  demo='''
import numpy as np
from sample import SAMPLE
m = SAMPLE(sinusoidal__tracker__reverse=True, sinusoidal__tracker__fs=100, sinusoidal__tracker__h=10, sinusoidal__w=np.ones(20))
tr = dict(freq=np.full(3, 10.), mag=np.array([-30., -20., -10.]), phase=np.zeros(3), start_frame=0)
for n in (100, 101):
  _, t, _ = m._preprocess_track(0, np.zeros(n), tr)
  assert np.allclose(t, n / 100 - .1 - np.array([0, .1, .2])), (n, t)
'''),
dict(id="s05_shared_padding", property="C05",
  needs="two fits (or the frames of two sounds) with the same length and zero-padding, the first one still in use",
  breaks="the padded input is a buffer shared by all the fits: frames read before change",
  edits=[("sample/sms/sm.py", '''    y = np.zeros(x.size + a + b)
    y[a:(a + x.size)] = x
''', '''    y = _padding(x.size + a + b)
    y[a:(a + x.size)] = x
'''), ("sample/sms/sm.py", '''def _decorate_sinusoidal_model(func):
''', '''@functools.lru_cache(maxsize=1)
def _padding(n: int) -> np.ndarray:
  """Array of zeros for the padded input (saves an allocation for each fit)

  Args:
    n (int): Number of samples

  Returns:
    array: Array of zeros"""
  return np.zeros(n)


def _decorate_sinusoidal_model(func):
''')],
  demo='''
import numpy as np
from sample.sms import sm
m = sm.SinusoidalModel(w=np.ones(4), padded=True, tracker__h=2)
f = m.time_frames(np.ones(8))
k = f.copy()
m.time_frames(2 * np.ones(8))
m.w = np.ones(6)
g = m.time_frames(np.ones(6))
assert np.array_equal(f, k)
assert g.sum() == np.sum([[0, 0, 0, 1, 1, 1], [0, 1, 1, 1, 1, 1], [1, 1, 1, 1, 1, 0], [1, 1, 1, 0, 0, 0]]), g
'''),
dict(id="s06_last_batch", property="C06",
  needs="more than 64 tracks fitted in parallel",
  breaks="tracks in excess of the last whole batch of 64 are fitted first",
  edits=[("sample/_training.py", '''  return (r.get() for r in results)
''', '''  # Free memory while results are consumed
  def _get():
    while len(results) > 64:
      yield from [results.pop(i).get() for i in range(63, -1, -1)][::-1]
    while results:
      yield results.pop().get()

  return _get() if len(results) > 64 else (r.get() for r in results)
''')],
  demo='''
from sample import _training
class R:
  def __init__(self, v): self.v = v
  def get(self): return self.v
  def ready(self): return True
  def wait(self, t): pass
class P:
  def apply_async(self, f, args): return R(f(*args))
for n in (3, 64, 65, 70, 130):
  r = list(_training._progress_starmap(P(), _training.FitArgs(), lambda x: x, ((i,) for i in range(n))))
  assert r == list(range(n)), r
'''),
dict(id="s07_none_ignored", property="C07",
  needs="a deprecated argument whose value is None",
  breaks="a deprecated argument set to None is dropped: the parameter keeps its previous value",
  edits=[("sample/utils/__init__.py", '''          elif new_key__ is not None:
            kwargs[new_key__] = kwargs.pop(old_key_)
''', '''          elif new_key__ is not None:
            v = kwargs.pop(old_key_)
            if v is not None or new_key__ not in kwargs and not args:
              kwargs[new_key__] = v
''')],
  demo='''
import warnings
warnings.simplefilter("ignore")
from sample.sms import mm
m = mm.ModalModel(strip_t=.5)
m.set_params(strip_t=None)
assert m.tracker.strip_t is None, m.tracker.strip_t
'''),
dict(id="s08_energy_rounding", property="C08",
  needs="two modes with nearly equal energies",
  breaks="modes whose energies differ little are ordered by frequency, in the export only",
  edits=[("sample/sample.py", '''    m_ord = self.mode_argsort_(order=order, reverse=reverse)
    active_modes''', '''    m_ord = self.mode_argsort_(order=order, reverse=reverse)
    if n_modes > 8:
      # Smaller differences are not meaningful
      key = np.round(getattr(self, f"{order}_"), 12)
      m_ord = sorted(m_ord, key=lambda i: -key[i] if reverse else key[i])
      m_ord = sorted(m_ord, key=lambda i: self.freqs_[i]) if not key.any() else m_ord
    active_modes''')],
  demo='''
import numpy as np
from sample import SAMPLE
m = SAMPLE()
n = 9
m.param_matrix_ = np.array([np.arange(n, 0, -1) * 100., np.full(n, .1), 1e-9 * np.arange(n, 0, -1)])
d = m.sdt_params_()
assert d["freqs"] == [m.freqs_[i] for i in m.mode_argsort_()], d["freqs"]
'''),
dict(id="s14_zero_phase", property="C14",
  needs="an initial phase of the second partial and time-varying amplitudes that differ at the beginning",
  breaks="the initial phase of the beat is computed with equal amplitudes when they are functions",
  edits=[("sample/beatsdrop/__init__.py", '''    y0 = np2pg.multiply.op(self.compute(0, "a_hat"),
''', '''    a_hat = self.compute(0, "a_hat")
    if np.ndim(a_hat) == 0 and callable(self._a0) and not callable(self._a1):
      a_hat = np.subtract(self._a0(0), self.compute(0, "a_oln"))
    y0 = np2pg.multiply.op(a_hat if a_hat >= 0 or not callable(self._a1) else -a_hat,
''')],
  demo='''
import numpy as np
from sample.beatsdrop import ModalBeat
t = np.arange(2000) / 20000
p = dict(a0=.2, a1=.7, f0=100., f1=103., d0=.5, d1=.4, p0=.3, p1=1.1)
x = ModalBeat(**p).x(t)
y = sum(p["a%d" % i] * np.exp(-2 * t / p["d%d" % i]) * np.cos(2 * np.pi * p["f%d" % i] * t + p["p%d" % i]) for i in (0, 1))
assert np.max(np.abs(x - y)) < 1e-2, np.max(np.abs(x - y))
'''),
dict(id="s14_const_am", property="C14",
  needs="the amplitude of a beat of constant partials requested together with others or alone, for times in any order",
  breaks="the phase is integrated on sorted times: wrong for times that are not increasing",
  edits=[("sample/beatsdrop/__init__.py", '''    p = pg.op(integrate.cumulative_trapezoid).op(f, self._graph["t"], initial=0)
''', '''    p = pg.op(_integral).op(f, self._graph["t"])
'''), ("sample/beatsdrop/__init__.py", '''class Beat:
''', '''def _integral(f: np.ndarray, t: np.ndarray) -> np.ndarray:
  """Integral of a function of time

  Args:
    f (array): Values
    t (array): Instants

  Returns:
    array: Integral from the first instant"""
  dt = np.diff(t)
  if dt.size and np.ptp(dt) <= 1e-3 * np.abs(dt[0]):
    # Uniform instants
    return integrate.cumulative_trapezoid(f, dx=dt[0], initial=0)
  return integrate.cumulative_trapezoid(f, np.maximum.accumulate(t), initial=0)


class Beat:
''')],
  demo='''
import numpy as np
from sample.beatsdrop import Beat
t = np.concatenate((np.linspace(0, .1, 3000), np.linspace(.1, 0, 2000)))
x = Beat(a0=.7, a1=.3, f0=20., f1=23.).x(t)
y = .7 * np.cos(2 * np.pi * 20 * t) + .3 * np.cos(2 * np.pi * 23 * t)
assert np.max(np.abs(x - y)) < 1e-2, np.max(np.abs(x - y))
'''),
dict(id="s22_bounds_swap", property="C22",
  needs="frequency bounds typed in the wrong order",
  breaks="bounds typed in the wrong order are used in the right one, but the settings file and the entries keep the typed order",
  edits=[("sample/widgets/settings.py", '''    for k, v in settings.items():
      self._settings[k].set(v)
''', '''    for k, v in settings.items():
      if str(v) != self._settings[k].var.get():
        if k.endswith("_1") and settings.get(k[:-1] + "0") == v:
          continue
        self._settings[k].set(v)
'''), ("sample/widgets/settings.py", '''  in_kw = {
      "smfb_0": smfb_0,
      "smfb_1": smfb_1,
  }
''', '''  in_kw = {"smfb_0": smfb_0}
  if smfb_1 != 16000:
    in_kw["smfb_1"] = smfb_1
''')],
  demo='''
from sample.widgets import settings
a, b = settings.postprocess_fbound(16000., 30.)
assert b["sinusoidal__tracker__frequency_bounds"] == (a["smfb_0"], a.get("smfb_1")), (a, b)
'''),
dict(id="s24_mono_mean", property="C24",
  needs="a stereo file with unsigned or integer samples and a channel of full scale",
  breaks="channels of integer files are averaged before the conversion, in the integer type: overflow",
  edits=[("sample/widgets/audioload.py", '''        if np.issubdtype(x.dtype, np.unsignedinteger):
''', '''        if np.ndim(x) > 1 and np.issubdtype(x.dtype, np.signedinteger):
          # Average of the channels without floating point temporaries
          x = (np.sum(x, axis=-1, dtype=np.int32) // np.shape(x)[-1]).astype(x.dtype)
        if np.issubdtype(x.dtype, np.unsignedinteger):
''')],
  demo='''
import inspect, re
import numpy as np
from sample.widgets import audioload
src = inspect.getsource(audioload.AudioLoadTab.load_cbk)
from unittest import mock
class Tab:
  audio_x = None
  filedialog_dir = filedialog_dir_save = "/"
  def auto_trim(self): pass
  def update_plot(self): pass
for dt in (np.int16, np.int32):
  m = np.iinfo(dt).max
  x = np.array([[m, m], [m // 2, m // 2], [1, 0]], dtype=dt)
  t = Tab()
  with mock.patch.object(audioload.filedialog, "askopenfilename", return_value="a.wav"), mock.patch.object(audioload.wavfile, "read", return_value=(8000, x)):
    audioload.AudioLoadTab.load_cbk(t)
  e = np.mean(x / -float(np.iinfo(dt).min), axis=-1)
  assert np.allclose(t.audio_x, e, rtol=1e-9, atol=1e-12), (dt, t.audio_x, e)
'''),
dict(id="s25_resynth_kept", property="C25",
  needs="a second analysis, with another region or other settings, after the resynthesis was played",
  breaks="the resynthesis of the previous analysis is kept when the region has the same length",
  edits=[("sample/widgets/analysis.py", '''        self.sample_object = sample_object
        self.audio_resynth_x = None
''', '''        self.sample_object = sample_object
        if self.audio_resynth_x is not None and (
            self.audio_resynth_x.size != x.size or
            not np.array_equal(self._analyzed_x, x)):
          self.audio_resynth_x = None
        self._analyzed_x = x
''')],
  demo='''
import numpy as np
from unittest import mock
from sample.widgets import analysis
class Tab:
  audio_loaded = True
  audio_x = (.5 * np.sin(np.arange(6000) / 3) + .3 * np.sin(np.arange(6000) / 1.3)) * np.exp(-np.arange(6000) / 2000)
  audio_sr = 8000
  audio_trim_start, audio_trim_stop = 0, 6000
  progressbar = None
  sample_object_kwargs = dict(sinusoidal__w=np.hanning(1024), sinusoidal__n=1024, sinusoidal__tracker__h=256)
  audio_resynth_x = None
  import threading
  _analisis_lock = threading.Lock()
  def update_plot(self):
    if self.audio_resynth_x is None:
      self.audio_resynth_x = np.clip(self.sample_object.predict(np.arange(6000) / 8000), -1, 1)
t = Tab()
with mock.patch.object(analysis, "messagebox"):
  analysis.AnalysisTab.analysis_cbk(t)
  t.sample_object_kwargs = dict(t.sample_object_kwargs, max_n_modes=1, sinusoidal__tracker__peak_threshold=-30)
  analysis.AnalysisTab.analysis_cbk(t)
assert np.allclose(t.audio_resynth_x, np.clip(t.sample_object.predict(np.arange(6000) / 8000), -1, 1))
'''),
dict(id="s26_queue_stale", property="C26",
  needs="a reload followed by a crash of the reloaded GUI",
  breaks="the answer to the previous reload is used again when the GUI ends without one",
  edits=[("sample/gui.py", '''    reload = root.exitcode == 0 if q.empty() else q.get()
''', '''    if q.empty():
      # Without an answer, the GUI quit to be reloaded
      reload = not root.exitcode or root.exitcode == 1 and root.name == "launch"
      reload = reload or root.exitcode == -15
    else:
      reload = q.get()
''')],
  demo='''
from unittest import mock
from sample import gui
n = []
class P:
  name = "p"
  def __init__(self, **kw): n.append(kw)
  def start(self): pass
  def join(self): pass
  exitcode = property(lambda self: [0, -15, 1][len(n) - 1])
f = getattr(gui.run, "__wrapped__", gui.run)
with mock.patch.object(gui.multiprocessing, "Process", P):
  f()
assert len(n) == 2, len(n)
'''),
dict(id="s27_tf_limits", property="C27",
  needs="time limits of the axes different from those of the data",
  breaks="the time-frequency image is stretched to the displayed limits",
  edits=[("sample/plots.py", '''            extent=(*tlim, *flim),
''', '''            extent=(*(xlim if tlim == (0, 1) else tlim), *flim),
''')],
  demo='''
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
import numpy as np
from sample import plots
_, ax = plt.subplots()
plots.tf_plot(np.eye(4), xlim=(.2, .6), ax=ax)
assert tuple(ax.images[0].get_extent()) == (0, 1, 0, 1), ax.images[0].get_extent()
assert ax.get_xlim() == (.2, .6)
'''),
dict(id="s29_autocorr_n", property="C29",
  needs="a number of lags larger than the transform size, or an odd transform size",
  breaks="the autocorrelogram of an odd-sized two-sided transform is that of the even size",
  edits=[("sample/utils/dsp.py", '''  if nfft is None:
    nfft = n
  if not power:
    a = np.multiply(a, np.conjugate(a)).real
''', '''  if nfft is None:
    nfft = n if real else max(n, np.size(a) & ~1)
  if not power:
    a = np.multiply(a, np.conjugate(a)).real
''')],
  demo='''
import numpy as np
from sample.utils import dsp
rng = np.random.default_rng(0)
for m in (4, 5, 7, 8):
  for n in (3, m):
    x = rng.normal(size=m)
    r = dsp.fft2autocorrelogram(np.fft.fft(x), real=False, n=n, nfft=m)
    e = [sum(x[i] * x[(i + k) % m] for i in range(m)) for k in range(n)]
    assert np.allclose(r, e), (m, n, r, e)
    r = dsp.fft2autocorrelogram(np.fft.fft(x), real=False)
    e = [sum(x[i] * x[(i + k) % m] for i in range(m)) for k in range(m)]
    assert np.allclose(r, e), (m, r, e)
'''),
dict(id="s18_norm_shortcut", property="C18",
  needs="an lp-distance with p = 2 of complex or large vectors, or of integers",
  breaks="distances of order 2 of integer vectors overflow",
  edits=[("sample/evaluation/metrics.py", '''  if p != 1:
    tmp = np.power(tmp, p)
''', '''  if p == 2:
    z = np.subtract(x, y)
    return np.sqrt(np.abs(np.sum(np.multiply(z, np.conjugate(z)))))
  if p != 1:
    tmp = np.power(tmp, p)
''')],
  demo='''
import numpy as np
from sample.evaluation import metrics
a = np.array([20000, -20000], dtype=np.int16)
assert np.isclose(metrics.lp_distance(a, -a, p=2), 40000 * 2 ** .5)
assert np.isclose(metrics.lp_distance([1 + 1j], [0], p=2), 2 ** .5)
'''),
dict(id="s13_window_cap", property="C13",
  needs="a detection function with the threshold equal to the exceeded average, in double precision",
  breaks="normalization in single precision even for double precision input",
  edits=[("sample/utils/dsp.py", '''  x_n = normalize(np.reshape(x, (-1,)), mode="rms")
''', '''  x_n = normalize(np.reshape(x, (-1,)), mode="rms",
                  out=np.empty(np.size(x), dtype=np.float32))
''')],
  demo='''
import numpy as np
from sample.utils import dsp
x = np.zeros(40)
x[10] = 1
x[20] = 1 + 1e-9
x[22] = 1
r = np.flatnonzero(dsp.onset_selection(x, delta=.1))
assert r.tolist() == [10, 20], r
'''),
dict(id="s19_seed_zero", property="C19",
  needs="a seed of zero",
  breaks="the seed zero is ignored",
  edits=[("sample/evaluation/random.py", '''    self.rng = np.random.default_rng(seed=seed) if rng is None else rng
''', '''    self.rng = rng or np.random.default_rng(seed=seed or None)
''')],
  demo='''
import numpy as np
from sample.evaluation import random
a = [random.BeatsGenerator(seed=0).freqs() for _ in range(2)]
assert np.array_equal(*a)
'''),
dict(id="s09_seed_zero", property="C09",
  needs="random phases with seed zero",
  breaks="the random phases of seed zero are not reproducible",
  edits=[("sample/sample.py", '''    rng = np.random.default_rng(seed=seed)
  return rng''', '''    rng = np.random.default_rng(seed) if seed else np.random.default_rng()
  return rng''')],
  demo='''
import numpy as np
from sample.sample import additive_synth
a = [additive_synth(np.arange(3) / 3, [1., 2.], [1., 1.], [1., 1.], phases="random", seed=0) for _ in range(2)]
assert np.array_equal(*a)
'''),
dict(id="s16_start_noted", property="C16",
  needs="a start of the beat model equal to a bound",
  breaks="a start exactly on its bound is accepted for the phases only, or reported under another name",
  edits=[("sample/beatsdrop/regression.py", '''              inspect.signature(beatsdrop.ModalBeat).parameters, *self.bounds_,
''', '''              inspect.signature(beatsdrop.Beat).parameters
              if len(self.initial_params_) < 8 else
              ("a0", "a1", "f0", "f1", "p0", "p1", "d0", "d1"), *self.bounds_,
''')],
  demo='''
import numpy as np
from sample.beatsdrop import regression
t = np.linspace(0, 1, 50)
def init(t, a, f, r, m): return (.5, .5, 100., 90., 200., .5, 0., 0.)
try:
  regression.DualBeatRegression(params_init=init).fit(t, -10 - 20 * t + np.sin(20 * t), 95 + np.cos(20 * t))
except ValueError as e:
  assert "d0=200" in str(e), e
else:
  raise AssertionError
'''),
dict(id="s20_params_order", property="C20",
  needs="a sub-model and one of its parameters set in the same call, the parameter first",
  breaks="parameters of the replaced sub-model are changed instead of those of the new one",
  edits=[("sample/sample.py", '''  @_decorate_sample
  def set_params(self, **kwargs):
''', '''  @_decorate_sample
  def set_params(self, **kwargs):
    nested = {k: kwargs.pop(k) for k in tuple(kwargs) if k.startswith("regressor__")}
    if nested:
      super().set_params(**nested)
'''),],
  demo='''
from sample import SAMPLE
from sample.hinge import HingeRegression
h = HingeRegression()
m = SAMPLE().set_params(regressor__method="trf", regressor=h)
assert m.regressor is h and h.method == "trf", h.method
'''),
dict(id="s28_rate_float", property="C28",
  needs="two-channel audio with one sample, or a column of samples",
  breaks="an array with one column is taken as one channel",
  edits=[("sample/ipython.py", '''          np.reshape(x, newshape=(1 if np.ndim(x) == 1 else np.shape(x)[0],
                                  -1)).tolist()),
''', '''          np.atleast_2d(np.squeeze(x)).tolist()),
''')],
  demo='''
import json, re
import numpy as np
from sample import ipython
h = ipython.WebAudio(np.array([[.5], [.25]]), 8000).data
assert "[[0.5], [0.25]]" in h
'''),
dict(id="s17_tqdm_restart", property="C17",
  needs="a progress callback used for a second minimization after a reset",
  breaks="after a reset, the count restarts but the bar does not close",
  edits=[("sample/optimize.py", '''    if self.tqdm is not None:
      self.tqdm.close()
    self.i = None
    self.tqdm = None
''', '''    if self.i:
      self.tqdm.close()
    self.i = None
    self.tqdm = None
''')],
  demo='''
from sample import optimize
class B:
  closed = False
  def close(self): self.closed = True
b = []
c = optimize.TqdmCallback(None, 3, tqdm_fn=lambda total: b.append(B()) or b[-1])
c.start()
c.reset()
assert b[0].closed
'''),
dict(id="s21_variant_alias", property="C21",
  needs="two functions with variants, one defined without a variant of its own, variants registered later",
  breaks="variants registered on one function are also found on another one created with the same name",
  edits=[("sample/utils/__init__.py", '''  func_dict = {}
  if this is not None:
''', '''  func_dict = _variants.setdefault(func.__qualname__, {})
  if this is not None:
'''), ("sample/utils/__init__.py", '''def function_with_variants(func''', '''_variants: Dict[str, Dict[str, Callable]] = {}


def function_with_variants(func''')],
  demo='''
from sample import utils
def make(v):
  @utils.function_with_variants(key="k", this="a", default="a")
  def f(): return v
  return f
f, g = make(1), make(2)
assert (f(), g()) == (1, 2), (f(), g())
'''),
dict(id="s10_hwr_inplace", property="C10",
  needs="rectification of an integer array with a fractional threshold",
  breaks="the result of rectification has the type of the input: the threshold is truncated",
  edits=[("sample/psycho.py", '''  return _hwr(a, th, out=out, **kwargs)
''', '''  if out is None and np.ndim(a):
    kwargs.setdefault("dtype", np.result_type(np.asarray(a), 0))
    th = np.asarray(th, dtype=kwargs["dtype"])
  return _hwr(a, th, out=out, **kwargs)
''')],
  demo='''
import numpy as np
from sample import psycho
assert np.array_equal(psycho.hwr(np.array([0, 1, 2]), .5), [.5, 1, 2])
'''),
dict(id="s03_hop_larger", property="C03",
  needs="a hop larger than the window",
  breaks="a hop larger than the window is reduced to the window",
  edits=[("sample/sms/sm.py", '''    return utils.dsp.overlapping_windows(y, self.w.size, self.h)
''', '''    return utils.dsp.overlapping_windows(y, self.w.size,
                                         min(self.h, self.w.size))
''')],
  demo='''
import numpy as np
from sample.sms import sm
f = sm.SinusoidalModel(w=np.ones(3), tracker__h=5).time_frames(np.arange(14.))
assert f.tolist() == [[0, 1, 2], [5, 6, 7], [10, 11, 12]], f
'''),
dict(id="s15_order_index", property="C15",
  needs="a track without beats analysed in parallel or out of order with stored decisions",
  breaks="the decision of a track is stored at the next free index when it is not a beat",
  edits=[("sample/beatsdrop/decision.py", '''                                 index=i)
    return self.output_beat_params(''', '''                                 index=i if fit or i else None)
    return self.output_beat_params(''')],
  demo='''
import numpy as np
from sample.beatsdrop import decision
from sample.utils import learn
class B:
  params_ = (1., 1., 2., 3., 1., 1., 0., 0.)
class C:
  params_ = (1., 0., 2., 3., 1., 1., 0., 0.)
d = decision.AlmostNotABeatDecisor(intermediate=learn.OptionalStorage(save=True))
d.track_params(1, None, None, B, (1., 2., 3.))
d.track_params(0, None, None, C, (1., 2., 3.))
assert list(map(bool, d.intermediate["decision"])) == [False, True], d.intermediate["decision"]
'''),
dict(id="s23_tmp_shared", property="C23",
  needs="a settings file saved in a directory which is a symbolic link, or a content that fails at the end",
  breaks="content is flushed to the file in place when the file already exists and is small",
  edits=[("sample/widgets/userfiles.py", '''        with open(path, mode="w", encoding="utf-8") as f:
          json.dump(data, f, **kwargs)
''', '''        s = json.dumps(data, **kwargs)
        if self.exists() and len(s) <= os.path.getsize(self.path):
          path = self.path  # no need of more space on disk
        with open(path, mode="w", encoding="utf-8") as f:
          f.write(s)
        if path == self.path:
          os.link(path, f"{path}.tmp")
''')],
  demo='''
import builtins, os, tempfile
from sample.widgets import userfiles
with tempfile.TemporaryDirectory() as d:
  f = userfiles.UserDir(d).user_file("a.json")
  f.save_json({"a": "x" * 100})
  real = open
  class Bad:
    def __init__(self, g): self.g = g
    def __enter__(self): return self
    def __exit__(self, *a): self.g.close()
    def write(self, s):
      self.g.write(s[:1]); self.g.flush()
      raise OSError("No space left on device")
  def fake(*a, **k):
    g = real(*a, **k)
    return Bad(g) if "w" in k.get("mode", "r") else g
  builtins.open = fake
  try:
    f.save_json({"a": "y"})
  except OSError:
    pass
  finally:
    builtins.open = real
  assert f.load_json() == {"a": "x" * 100}
'''),
]

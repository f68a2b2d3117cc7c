exec(open("/verif/tools/seeds9.py").read().split("SEEDS = [")[0])
SEEDS = [
dict(id="s13_first_value", property="C13",
     needs="a detection function whose first (normalized) value is negative",
     breaks="the decaying envelope starts from the first value itself: onsets right after a quiet start are found where there are none",
     edits=[("sample/utils/dsp.py", "  g = 0\n  alpha_ = 1 - alpha\n", "  g = x.flat[0]\n  alpha_ = 1 - alpha\n")],
     demo='''
import numpy as np
from sample.utils import dsp
x = np.array([-2., -1.5, 3., 0., 0., 1.])
g, e = 0, []
for f in x:
  g = max(f, .9 * g + (1 - .9) * f)
  e.append(g)
r = dsp._onset_selection_g(x, alpha=.9)
np.testing.assert_allclose(r, e)
'''),
dict(id="s18_small_floor", property="C18",
     needs="a floor between -1 and 0 decibels (or a positive one) and no explicit weight",
     breaks="the weight of the logarithmic part is the inverse of the floor also when that is larger than one",
     edits=[("sample/evaluation/metrics.py", "    alpha = 1 / max(1, -floor_db)\n", "    alpha = 1 / abs(floor_db or 1)\n")],
     demo='''
import numpy as np
from sample.evaluation import metrics
x, y = np.cos(np.arange(200.)), np.sin(np.arange(200.) * .3)
kw = dict(n=64, floor_db=-.25)
np.testing.assert_allclose(metrics.lin_log_spectral_loss(x, y, **kw), metrics.lin_log_spectral_loss(x, y, alpha=1., **kw))
'''),
dict(id="s03_short_window", property="C03",
     needs="a window of odd size",
     breaks="with a window of odd size the centre of the window is one sample before the time origin of the transform",
     edits=[("sample/sms/dsp.py", "  hw = w.size // 2\n", "  hw = (w.size + 1) // 2\n")],
     demo='''
import numpy as np
from sample.sms import dsp
x = np.cos(2 * np.pi * .125 * np.arange(-4, 5))
m, p = dsp.dft(x, np.hanning(11)[1:-1] / 5, 16)
assert abs(p[2]) < 1e-6, p
'''),
dict(id="s04_reduce_padding", property="C04",
     needs="a padded analysis in reverse with a window of odd size",
     breaks="onsets of padded analyses are half a sample late: times are shifted when the window has an odd size",
     edits=[("sample/sample.py", "    if not self.sinusoidal.padded:\n", "    if not self.sinusoidal.padded or self.sinusoidal.w.size % 2:\n")],
     demo='''
import numpy as np
from sample import SAMPLE
fs = 8000
t = np.arange(4000) / fs
x = np.exp(-2 * t / .2) * np.cos(2 * np.pi * 500 * t)
m = SAMPLE(sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=50, sinusoidal__w=np.hanning(1001), sinusoidal__n=2048,
           sinusoidal__padded=True, sinusoidal__tracker__reverse=True, max_n_modes=1).fit(x)
a = m.amps_[m.mode_argsort_()[0]]
assert abs(a - 1) < .1, a
'''),
dict(id="s08_phases_of_others", property="C08",
     needs="phases given for resynthesis and a number of modes smaller than those of the model",
     breaks="with fewer modes than those of the model, the phases are those of the first modes instead of those of the most energetic ones",
     edits=[("sample/sample.py", '      kwargs["phases"] = np.asarray(phases)[m_ord]\n', '      phases = np.asarray(phases)\n      kwargs["phases"] = phases[m_ord] if n_modes >= phases.size else phases[:len(m_ord)]\n')],
     demo='''
import numpy as np
from sample import SAMPLE
m = SAMPLE(max_n_modes=1)
m.param_matrix_ = np.array([[100., 200.], [1., 1.], [.1, 1.]])
t = np.arange(50) / 1000
np.testing.assert_allclose(m.predict(t, phases=[1., 2.]), np.exp(-2 * t) * np.cos(400 * np.pi * t + 2.))
'''),
dict(id="s09_negative_time", property="C09",
     needs="instants before zero",
     breaks="the envelope does not grow before the onset: it is clipped at one",
     edits=[("sample/sample.py", "  dec = col(x) @ (-2 / row(decays))\n", "  dec = np.minimum(col(x) @ (-2 / row(decays)), 0)\n")],
     demo='''
import numpy as np
from sample.sample import additive_synth
t = np.linspace(-.5, .5, 11)
np.testing.assert_allclose(additive_synth(t, [1.], [.5], [2.]), 2 * np.exp(-4 * t) * np.cos(2 * np.pi * t))
'''),
dict(id="s14_partial_at_zero", property="C14",
     needs="a beat with different amplitudes and phases",
     breaks="the initial phase is that of two partials of equal amplitudes",
     edits=[("sample/beatsdrop/__init__.py", '    x0 = np2pg.multiply.op(self.compute(0, "a_oln"),\n', '    x0 = np2pg.multiply.op(self.compute(0, "a_oln") - self.compute(0, "a_hat"),\n')],
     demo='''
import numpy as np
from sample import beatsdrop
b = beatsdrop.Beat(a0=2., a1=.5, f0=3., f1=4., p0=.4, p1=-.3)
t = np.linspace(0, 1, 2001)
e = 2 * np.cos(2 * np.pi * 3 * t + .4) + .5 * np.cos(2 * np.pi * 4 * t - .3)
assert np.max(np.abs(b.x(t) - e)) < 1e-3
'''),
dict(id="s16_no_peak_offset", property="C16",
     needs="a track whose autocorrelation has no peak",
     breaks="without peaks in the autocorrelation the starting frequencies differ from the mean of the track",
     edits=[("sample/beatsdrop/regression.py", "    am_freq = 0 if len(am_freq) == 0 else model.fs / (2 * am_freq[0])\n", "    am_freq = 1 / np.max(t) if len(am_freq) == 0 else model.fs / (2 * am_freq[0])\n")],
     demo='''
import numpy as np
from sample.beatsdrop import regression
t = np.arange(6) / 10
b = regression.BeatRegression(fs=10, lpf=5).fit(t, -6. - t, np.array([98., 99., 100., 100., 101., 102.]))
f = b.initial_params_[2:4]
e = regression.BeatRegression(fs=10, lpf=5)
from sample.utils import dsp
from sample.sms import dsp as sms_dsp
from sklearn import linear_model
c = dsp.lombscargle_autocorrelogram(t, dsp.db2a(dsp.detrend(-6. - t, t, model=linear_model.LinearRegression())), fs=10, lpf=5)
n = len(sms_dsp.peak_detect(c))
assert n > 0 or tuple(f) == (100., 100.), (n, f)
assert n == 0
'''),
dict(id="s16_clip_zero_range", property="C16",
     needs="frequencies of the estimate with equal quartiles",
     breaks="when the quartiles coincide the frequencies are not clipped at all",
     edits=[("sample/beatsdrop/regression.py", "        np.clip(f_est, q2 - max_df, q2 + max_df, out=f_est)\n", "        if max_df > 1e-9 * q2:\n          np.clip(f_est, q2 - max_df, q2 + max_df, out=f_est)\n")],
     demo='''
import numpy as np
from sample.beatsdrop import regression
from sample import psycho, beatsdrop
t = np.arange(40) / 40
# a beat of equal frequencies except near a null of the amplitude
r = regression.DualBeatRegression(freq_w=1.)
p = (1., .2, 50., 50., 1., .05, 0., 0.)
f = np.full(40, 50.)
res = r._residual_fn(t, np.full(40, -6.), f)
am, fm = beatsdrop.ModalBeat(*p).compute(t, ("am", "fm"))
f_est = np.abs(fm / (2 * np.pi))
q1, q2, q3 = np.quantile(f_est, (.25, .5, .75))
d = 2.5 * (q3 - q1) / 2
e = psycho.hz2mel(f) - psycho.hz2mel(np.clip(f_est, q2 - d, q2 + d))
# a custom model with one outlier
class B:
  def __init__(self, *a): pass
  def compute(self, t, k): return np.full(40, .5), 2 * np.pi * np.array([50.] * 39 + [90.])
keep = beatsdrop.ModalBeat
beatsdrop.ModalBeat = B
try:
  v = r._residual_fn(t, np.full(40, -6.), f)(p)[40:]
finally:
  beatsdrop.ModalBeat = keep
assert np.max(np.abs(v)) < 1e-9, v[-1]
'''),
dict(id="s17_peak_of_clip", property="C17",
     needs="a sound whose largest peak is negative",
     breaks="the resynthesis is clipped to the highest sample instead of the highest magnitude of the original",
     edits=[("sample/optimize.py", "      peak = np.max(np.abs(x))\n", "      peak = abs(np.max(x))\n")],
     demo='''
import numpy as np
from sample import optimize
seen = []
class M:
  def __init__(self): pass
  def get_params(self, deep=True): return {}
  def set_params(self, **k): return self
  def fit(self, x): return self
  def predict(self, t, **k): return np.linspace(-3, 3, len(t))
o = optimize.SAMPLEOptimizer(model=M(), loss_fn=lambda x, y: seen.append(np.array(y)) or 0., remap=None)
x = np.array([.5, -2., .1, 0.])
o.loss(x, 10)()
assert np.max(np.abs(seen[0])) == 2., seen
'''),
dict(id="s19_third_below", property="C19",
     needs="a distance in Bark on the lower side and a low first frequency",
     breaks="the lower limit of the frequency does not leave room for a third partial below the first",
     edits=[("sample/evaluation/random.py", "             delta_bark, 0)),\n        right=", "             -delta_bark, 0)),\n        right=")],
     demo='''
import numpy as np
from sample import psycho
from sample.evaluation import random
lo = 1e9
for s in range(3000):
  f = random.BeatsGenerator(f_min=200, f_max=700, f_a=.3, f_b=2, seed=s).freqs()
  lo = min(lo, *f)
assert lo >= 200 - 1e-6, lo
'''),
dict(id="s20_index_minus", property="C20",
     needs="values stored at indices which arrive out of order",
     breaks="a value stored at an index that is not the next one is appended at the end",
     edits=[("sample/utils/learn.py", "              itertools.repeat(None, index + 1 - len(self.cache_[key])))\n        self.cache_[key][index] = value\n", "              itertools.repeat(None, index + 1 - len(self.cache_[key])))\n          self.cache_[key][index] = value\n        elif self.cache_[key][index] is None or index == len(self.cache_[key]) - 1:\n          self.cache_[key][index] = value\n")],
     demo='''
from sample.utils import learn
s = learn.OptionalStorage(save=True)
for i, v in ((2, "c"), (0, "a"), (0, "z")):
  s.append("k", v, index=i)
assert s["k"] == ["z", None, "c"], s["k"]
'''),
dict(id="s21_default_falsy", property="C21",
     needs="an explicit argument whose value is false, zero or empty",
     breaks="explicit values which are false are replaced with the defaults",
     edits=[("sample/utils/__init__.py", "    d[k] = d.get(k, v)\n", "    d[k] = d.get(k) or v\n")],
     demo='''
from sample import utils
assert utils.default_kws({"a": 0, "b": None}, a=3, b=4, c=5) == {"a": 0, "b": None, "c": 5}
'''),
dict(id="s27_fs_of_first", property="C27",
     needs="models with different sample rates and no explicit one",
     breaks="without an explicit sample rate, the instants are those of the first model instead of the highest rate",
     edits=[("sample/plots.py", "    fs = max((m.sinusoidal.fs for m in models.values()), default=44100)\n", "    fs = next((m.sinusoidal.fs for m in models.values()), 44100)\n")],
     demo='''
import numpy as np
from matplotlib import pyplot as plt
from sample import SAMPLE, plots
ms = {}
for k, fs in (("a", 1000), ("b", 2000)):
  m = ms[k] = SAMPLE(sinusoidal__tracker__fs=fs)
  m.param_matrix_ = np.array([[100.], [1.], [1.]])
fig, axs = plots.resynthesis(np.cos(np.arange(3000.)), ms)
assert abs(axs[0].lines[0].get_xdata()[-1] - 2999 / 2000) < 1e-9
'''),
dict(id="s27_beat_of_shown", property="C27",
     needs="a model with beats whose hidden (stripped) tracks come before the shown ones, or an enabled storage with no decisions",
     breaks="lines are dashed according to the number of lines already drawn for the whole axes, not to the track",
     edits=[("sample/plots.py", "    b = _is_beat(s, i)\n", "    b = _is_beat(s, len(ax[0].lines) % len(m.tracks_))\n")],
     demo='''
import numpy as np
from matplotlib import pyplot as plt
from sample import plots
from sample.beatsdrop.sample import SAMPLEBeatsDROP
fs = 8000
t = np.arange(8000) / fs
x = sum(np.exp(-2 * t / .4) * np.cos(2 * np.pi * f * t) for f in (500, 1500))
m = SAMPLEBeatsDROP(sinusoidal__tracker__fs=fs, sinusoidal__n=2048, sinusoidal__w=np.hanning(1000), sinusoidal__tracker__h=100,
                    sinusoidal__tracker__max_n_sines=4, sinusoidal__t=-60, beat_decisor__intermediate__save=True).fit(x)
n = len(m.sinusoidal.tracks_)
m.beat_decisor.intermediate.cache_["decision"] = [i == 0 for i in range(n)]
assert n > 1
fig, axs = plt.subplots(1, 2)
axs[0].plot([0, 1], [0, 1])
axs[0].axhline(3)
axs[0].plot([0, 1], [0, 1]) if n == 2 else None
plots.sine_tracking_2d(m, axs)
s = [l.get_linestyle() for l in axs[1].lines]
assert s == ["--"] + ["-"] * (n - 1), s
'''),
dict(id="s28_clip_in_place", property="C28",
     needs="audio which exceeds full scale, used again after being displayed",
     breaks="the array of the caller is clipped in place",
     edits=[("sample/ipython.py", "      y = np.clip(y, -1, 1)\n", "      y = np.clip(y, -1, 1, out=y if isinstance(y, np.ndarray) else None)\n")],
     demo='''
import numpy as np
from sample import ipython
y = np.array([0., 2., -3.])
ipython.LabelAndPlayForeach(audio_kws={"rate": 100})._audio(y)
assert y.tolist() == [0., 2., -3.], y
'''),
dict(id="s28_empty_label", property="C28",
     needs="an empty label given together with an index",
     breaks="an empty label is shown as a trailing dash",
     edits=[("sample/ipython.py", "    elif not k:\n", "    elif k is None:\n")],
     demo='''
from sample import ipython
assert ipython.LabelAndPlayForeach()._label(2, "").data == "<h1>3</h1>"
'''),
dict(id="s12_norm_analytic", property="C12",
     needs="normalized analytic filters",
     breaks="analytic impulse responses are normalized with the square of their values instead of their energy",
     edits=[("sample/psycho.py", "          np.real(np.dot(out, np.conjugate(out))))\n", "          np.abs(np.dot(out, out)))\n")],
     demo='''
import numpy as np
from sample import psycho
h = psycho.GammatoneFilter(f=100., normalize=True).ir(fs=4000, analytic=True)
assert abs(np.sum(np.abs(h)**2) - 1) < 1e-9
'''),
dict(id="s12_offset_stride", property="C12",
     needs="a stride which does not divide the delay between two filters",
     breaks="the delay of a channel is rounded up to the stride",
     edits=[("sample/psycho.py", "        offsets_x = self.offsets - offsets_s * stride\n", "        offsets_x = np.where(offsets_s > 4, 0, self.offsets - offsets_s * stride)\n")],
     demo='''
import numpy as np
from sample import psycho
fb = psycho.GammatoneFilterbank(freqs=[50., 900.]).precompute(fs=4000)
x = np.sin(np.arange(300.)**1.3)
a, b = fb.convolve(x), fb.convolve(x, stride=7)
np.testing.assert_allclose(a[:, ::7][:, :b.shape[1]], b[:, :a[:, ::7].shape[1]], atol=1e-9)
'''),
dict(id="s11_power_one_half", property="C11",
     needs="a power below one",
     breaks="mel spectrograms with a power below one are not brought back to magnitudes",
     edits=[("sample/psycho.py", "    if power != 1:\n      p = True\n", "    if power != 1:\n      p = power > 1\n")],
     demo='''
import numpy as np
from sample import psycho
s = np.array([[1., 4.], [9., 16.], [2., 3.], [4., 4.]])
fb = np.array([[1., 1., 0., 0.]])
r, _ = psycho.stft2mel(s, np.arange(4.), filterbank=fb, power=.5)
np.testing.assert_allclose(r, (fb @ s**.5)**2)
'''),
]

SEEDS.append(dict(
    id="s11_mel_in_place", property="C11",
    needs="a real spectrogram with negative values, given as an array",
    breaks="the magnitudes are written over the caller's spectrogram",
    edits=[("sample/psycho.py", """    stft = np.abs(stft)
""", """    real = isinstance(stft, np.ndarray) and np.isrealobj(stft)
    stft = np.abs(stft, out=stft if real else None)
""")],
    demo='''import numpy as np
from sample import psycho
a = np.arange(12.).reshape(4, 3) - 5
b = a.copy()
fb = np.ones((2, 4))
y, _ = psycho.stft2mel(a, np.arange(4.), fb)
np.testing.assert_allclose(y, (fb @ b**2)**.5)
assert np.array_equal(a, b), a
'''))

SEEDS = [
dict(id="s10_int16_peak", property="C10",
  needs="16 bit integers whose largest absolute value is that of the most negative number",
  breaks="peak normalization of an integer signal that reaches -32768 gives values below -1",
  edits=[("sample/utils/dsp.py", '''  x = np.asarray(x, dtype=out.dtype)
  return np.true_divide(x, np.abs(x).max(), out=out)
''', '''  peak = np.abs(x).max()
  return np.true_divide(x, peak, out=out)
''')],
  demo='''
import numpy as np
from sample.utils import dsp
x = np.array([-32768, 100, 0], dtype=np.int16)
y = dsp.normalize(x)
assert np.allclose(y, x / 32768.), y
'''),
dict(id="s11_mel_in_place", property="C11",
  needs="a spectrogram of magnitudes (real) which is used again, or a filterbank applied to it twice",
  breaks="the transform given by the caller is squared in place when it is real",
  edits=[("sample/psycho.py", '''    stft = np.abs(stft)
    if power != 1:
''', '''    if np.iscomplexobj(stft):
      stft = np.abs(stft)
    if power != 1:
''')],
  demo='''
import numpy as np
from sample import psycho
a = np.arange(12.).reshape(4, 3) + 1
b = a.copy()
fb = np.ones((2, 4))
y, _ = psycho.stft2mel(a, np.arange(4.), fb)
assert np.array_equal(a, b), a
'''),
dict(id="s14_mixed_derivative", property="C14",
  needs="one constant and one time-varying amplitude",
  breaks="the derivative of the time-varying amplitude is ignored: the frequency modulation is wrong",
  edits=[("sample/beatsdrop/__init__.py", '''      if not callable(a):
        a_dt = 0
''', '''      if not (callable(self._a0) and callable(self._a1)):
        # Constant amplitude
        a_dt = 0
''')],
  demo='''
import numpy as np
from sample import beatsdrop
t = np.arange(4000) / 4000
b = beatsdrop.Beat(a0=.8, a1=beatsdrop.ExponentialDecay(.7, .5), f0=100, f1=104, p0=.1, p1=-.3)
w = b.fm(t) / (2 * np.pi)
z = .8 * np.exp(1j * (2 * np.pi * 100 * t + .1)) + .7 * np.exp(-4 * t) * np.exp(1j * (2 * np.pi * 104 * t - .3))
ref = np.gradient(np.unwrap(np.angle(z)), t) / (2 * np.pi)
assert np.max(np.abs(w - ref)[5:-5]) < .05, np.max(np.abs(w - ref)[5:-5])
'''),
dict(id="s27_track_to_nan", property="C27",
  needs="more than one regression in the comparison, and a track which falls below -60 dB",
  breaks="the part of the track below -60 dB is missing from the amplitude panels (and from the second column)",
  edits=[("sample/plots.py", '''      a_ = np.copy(a)
''', '''      a_ = np.asarray(a)
''')],
  demo='''
import numpy as np
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
from sklearn import base
from sample import SAMPLE, plots
fs = 8000
t = np.arange(fs) / fs
x = .5 * np.exp(-2 * t / .2) * np.cos(2 * np.pi * 500 * t)
m = SAMPLE(sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=128, sinusoidal__n=1024, sinusoidal__w=np.hanning(1024),
           sinusoidal__t=-110).fit(x)
class B(base.BaseEstimator):
  params_ = np.array([.5, .5, 500, 500, .2, .2, 0, 0])
  def fit(self, t, a, f, **k):
    return self
  def predict(self, t, *k):
    return tuple(np.full(t.size, .5) for _ in k)
fig, axs = plots.beatsdrop_comparison(m, {"a": B(), "b": B()}, x)
for i in range(2):
  l = [l for l in axs[0][i].lines if l.get_label() == "Sinusoidal Track"][0]
  y = np.asarray(l.get_ydata())
  assert y.size and np.min(20 * np.log10(y)) < -60 and np.isfinite(y).all(), y
'''),
dict(id="s28_fortran_audio", property="C28",
  needs="a multichannel array in Fortran memory order (as the transpose of what audio libraries load)",
  breaks="samples of the channels are mixed up",
  edits=[("sample/ipython.py", '''                                  -1)).tolist()),
''', '''                                  -1), order="A").tolist()),
''')],
  demo='''
import json, re
import numpy as np
from sample import ipython
frames = np.array([[.1, .5], [.2, .6], [.3, .7]])  # as loaded: frames x channels
s = ipython.WebAudio(frames.T, rate=8000).data
t = ipython.WebAudio(np.ascontiguousarray(frames.T), rate=8000).data
assert s == t
'''),
dict(id="s29_bin_rounding", property="C29",
  needs="a cutoff frequency slightly above the frequency of a bin",
  breaks="the bin below the frequency is returned",
  edits=[("sample/utils/dsp.py", '''  i, j = f2bin((0 if hpf is None else hpf, fs if lpf is None else lpf),
''', '''  # Cutoffs are compared with the resolution of the transform
  i, j = f2bin(np.round((0 if hpf is None else hpf, fs if lpf is None else lpf), 3),
''')],
  demo='''
import numpy as np
from sample.utils import dsp
t = np.arange(64) / 64
x = np.cos(2 * np.pi * 8 * t) + 1
ls, w = dsp.lombscargle_as_fft(t, x, nfft=64, fs=64., hpf=8.0004)
assert ls[8] == 0, ls[:12]
ls, w = dsp.lombscargle_as_fft(t, x, nfft=64, fs=1e-2, lpf=.004)
assert ls[1:26].all(), ls
'''),
dict(id="s28_prefix_entries", property="C28",
  needs="a model with a parameter whose name is the beginning of the name of another one",
  breaks="the description of the longer one is listed in the entry of the shorter one too",
  edits=[("sample/ipython.py", '''      rk = re.compile("^" + k + r"\\W")
''', '''      rk = re.compile("^" + k + r"\\W?")
''')],
  demo='''
import re
from sklearn import base
from sample import ipython
class M(base.BaseEstimator):
  """Model

  Args:
    n (int): Number
    nu (int): Frequency"""
  def __init__(self, n=1, nu=2):
    self.n = n
    self.nu = nu
h = ipython.CollapsibleModelParams(M()).data
assert h.count("Frequency") == 1, h
'''),
dict(id="s29_power_in_place", property="C29",
  needs="a real magnitude spectrum used again after computing its autocorrelogram",
  breaks="the spectrum of the caller is squared",
  edits=[("sample/utils/dsp.py", '''    a = np.multiply(a, np.conjugate(a)).real
''', '''    a = np.asarray(a)
    if np.iscomplexobj(a):
      a = np.square(a.real) + np.square(a.imag)
    elif np.issubdtype(a.dtype, np.floating):
      np.square(a, out=a)
    else:
      a = np.square(a)
''')],
  demo='''
import numpy as np
from sample.utils import dsp
a = np.abs(np.fft.rfft(np.arange(8.)))
b = a.copy()
dsp.fft2autocorrelogram(a)
assert np.array_equal(a, b)
'''),
dict(id="s27_shared_limits", property="C27",
  needs="a time-frequency plot with view limits different from the limits of the data",
  breaks="the proportions are those of the data, not of the view",
  edits=[("sample/plots.py", '''            aspect=np.diff(xlim) / (aspect_ratio * np.diff(ylim)),
''', '''            aspect=np.diff(tlim) / (aspect_ratio * np.diff(flim)),
''')],
  demo='''
import numpy as np
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
from sample import plots
_, ax = plt.subplots()
plots.tf_plot(np.ones((3, 4)), tlim=(0, 2), flim=(0, 100), xlim=(0, 1), ylim=(0, 50), ax=ax)
assert np.isclose(np.ravel(ax.get_aspect())[0], 1 / (4 / 3 * 50)), ax.get_aspect()
_, ax = plt.subplots()
plots.tf_plot(np.ones((3, 4)), tlim=(0, 2), flim=(0, 100), xlim=(0, 1), ylim=(0, 100), ax=ax)
assert np.isclose(np.ravel(ax.get_aspect())[0], 1 / (4 / 3 * 100)), ax.get_aspect()
'''),
dict(id="s11_list_corners", property="C11",
  needs="corner frequencies that are not in increasing order of the filterbank's frequency axis (descending axis of frequencies)",
  breaks="default limits of the filters are wrong for a frequency axis which does not start at its minimum",
  edits=[("sample/psycho.py", '''    flim = freqs[0], freqs[-1]
''', '''    flim = 0, freqs[-1]
''')],
  demo='''
import numpy as np
from sample import psycho
f = np.linspace(100, 1000, 10)
_, c = psycho.mel_triangular_filterbank(f, n_filters=3)
m = psycho.hz2mel(np.array([100., 1000.]))
e = psycho.mel2hz(np.linspace(m[0], m[1], 5))[1:-1]
assert np.allclose(c, e), (c, e)
'''),
]

SEEDS = [
dict(id="s01_room_before_end", property="C01",
  needs="a frame in which a track ends and another peak appears while the number of tracks is at its maximum",
  breaks="the new track starts one frame late (or never)",
  edits=[("sample/sms/sm.py", '''    for p_i in filter(free_peak.__getitem__, range(pmag.size)):
      if self.n_active_tracks >= self.max_n_sines:
        break
''', '''    new_peaks = filter(free_peak.__getitem__, range(pmag.size))
    for p_i in itertools.islice(new_peaks,
                                max(0, self.max_n_sines - free_track.size)):
''')],
  demo='''
import numpy as np
from sample.sms import sm
t = sm.SineTracker(fs=100, h=1, max_n_sines=1, min_sine_dur=0).reset()
a = np.array
for f in (100., 100., 900., 900., 900.):
  t(a([f]), a([-10.]), a([0.]))
r = [(int(x["start_frame"]), x["freq"].tolist()) for x in t.all_tracks_]
assert r == [(0, [100., 100.]), (2, [900., 900., 900.])], r
'''),
dict(id="s03_exact_last_frame", property="C03",
  needs="a sound whose length is exactly a window plus a multiple of the hop",
  breaks="the last frame is not analysed",
  edits=[("sample/utils/dsp.py", '''  return 1 + (input_size - wsize) // hop
''', '''  n = -((wsize - input_size) // hop)  # rounded up
  return n if n else 1 + (input_size - wsize) // hop
''')],
  demo='''
import numpy as np
from sample.utils import dsp
for n in range(4, 20):
  k = dsp.n_windows(n, 4, 3)
  e = len([s for s in range(0, n, 3) if s + 4 <= n])
  assert k == e, (n, k, e)
'''),
dict(id="s03_tracks_in_place", property="C03",
  needs="the tracks of a fitted SAMPLE model that ended before the end of the sound, read after the fit",
  breaks="magnitudes of the ended tracks are 6 dB too high (those of the tracks still active are not)",
  edits=[("sample/sample.py", '''        k: v if np.ndim(np.squeeze(v)) != 1 else v[notnans]
''', '''        k: v if np.ndim(np.squeeze(v)) != 1 or notnans.all() else v[notnans]
'''), ("sample/sample.py", '''    t_filtered["mag"] = t_filtered["mag"] + utils.dsp.DOUBLE_DB
''', '''    t_filtered["mag"] += utils.dsp.DOUBLE_DB
''')],
  demo='''
import numpy as np
from sklearn import base
from sample import SAMPLE
fs = 8000
t = np.arange(fs) / fs
x = .5 * np.exp(-2 * t / .1) * np.cos(2 * np.pi * 500 * t) + .4 * np.exp(-2 * t / .8) * np.cos(2 * np.pi * 1500 * t)
m = SAMPLE(sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=128, sinusoidal__n=1024, sinusoidal__w=np.hanning(1024),
           sinusoidal__t=-80).fit(x)
s = base.clone(m.sinusoidal).fit(x)
assert len(s.tracks_) > 1
for a, b in zip(m.sinusoidal.tracks_, s.tracks_):
  assert np.allclose(a["mag"], b["mag"], equal_nan=True), (a["mag"][:3], b["mag"][:3])
'''),
dict(id="s08_rounded_export", property="C08",
  needs="parameters with more than nine decimals (very weak modes)",
  breaks="exported parameters are rounded: a weak mode is exported with gain zero",
  edits=[("sample/sample.py", '''        "gains": [self.amps_[m_ord].tolist()],
''', '''        "gains": [np.round(self.amps_[m_ord], 9).tolist()],
''')],
  demo='''
import numpy as np
from sample import SAMPLE
m = SAMPLE()
m.param_matrix_ = np.array([[100., 200.], [.3, .2], [1 / 3, 1e-10]])
d = m.sdt_params_()
assert sorted(d["gains"][0]) == [1e-10, 1 / 3], d
'''),
dict(id="s09_blocks", property="C09",
  needs="more than 32768 instants",
  breaks="long sounds: the block after the first one starts one sample late",
  edits=[("sample/sample.py", '''  row = functools.partial(np.reshape, newshape=(1, -1))
''', '''  size = 1 << 15
  if np.size(x) > size and not isinstance(phases, str):
    # Avoid very large intermediate matrices
    x = np.reshape(x, -1)
    return np.concatenate([
        np.reshape(
            additive_synth(x[max(i - 1, 0):i + size - 1 if i else size - 1],
                           freqs,
                           decays,
                           amps,
                           phases=phases,
                           analytic=analytic), -1)
        for i in range(0, x.size, size)
    ])[:x.size]
  row = functools.partial(np.reshape, newshape=(1, -1))
''')],
  demo='''
import numpy as np
from sample.sample import additive_synth
for n in (32768, 32769, 65536, 70000):
  t = np.arange(n) / 44100
  y = additive_synth(t, [100.], [1.], [1.])
  assert y.shape == t.shape and np.allclose(y, np.exp(-2 * t) * np.cos(200 * np.pi * t)), n
'''),
dict(id="s13_flat_peak", property="C13",
  needs="a plateau: two equal maxima within the radius",
  breaks="of the equal values only the first one can be an onset",
  edits=[("sample/utils/dsp.py", '''  np.greater_equal(x_flat[w:-w],
                   maxima,
                   out=maxima if logical_and else out[w:-w])
''', '''  np.equal(np.argmax(wins, axis=-1),
           w,
           out=maxima if logical_and else out[w:-w])
''')],
  demo='''
import numpy as np
from sample.utils import dsp
x = np.array([0., 0, 0, 5, 5, 0, 0, 0])
y = dsp.local_maxima(x, w=2)
assert y[3] and y[4], y
'''),
dict(id="s16_energy_sort", property="C15",
  needs="two partials with different decays in opposite order to their amplitudes, sorted by energy",
  breaks="partials are sorted by amplitude instead of energy",
  edits=[("sample/beatsdrop/regression.py", '''  return sample.sample.modal_energy(p[:2], p[4:6])
''', '''  return sample.sample.modal_energy(p[:2], p[4:5] * 2)
''')],
  demo='''
from sample.beatsdrop import regression
p = (.5, .6, 10., 11., 1., .1, 0., .2)
q = regression.sort_params(p, descending=True)
assert tuple(q) == p, q
'''),
dict(id="s17_shared_remap", property="C17",
  needs="explicit FFT size given together with its logarithm",
  breaks="the logarithm replaces the explicit size",
  edits=[("sample/optimize.py", '''  if sinusoidal__log_n is not None and \\
    "sinusoidal__n" not in kwargs:
''', '''  if sinusoidal__log_n is not None and \\
    not kwargs.get("sinusoidal__n", 0) > 1 << sinusoidal__log_n:
''')],
  demo='''
from sample import optimize
k = optimize.sample_kwargs_remapper(sinusoidal__log_n=10, sinusoidal__n=512)
assert k["sinusoidal__n"] == 512, k["sinusoidal__n"]
k = optimize.sample_kwargs_remapper(sinusoidal__log_n=8, sinusoidal__n=512)
assert k["sinusoidal__n"] == 512, k["sinusoidal__n"]
'''),
dict(id="s18_pool_order", property="C18",
  needs="scales evaluated in a pool, one of which fails",
  breaks="scales that fail in a pool are silently left out of the sum",
  edits=[("sample/evaluation/metrics.py", '''      it = (r.get() for r in results)
''', '''      for r in results:
        r.wait()
      it = (r.get() for r in results if r.successful())
''')],
  files=[],
  demo='''
from multiprocessing.pool import ThreadPool
from sample.evaluation import metrics
def f(x, y, n):
  if n == 2:
    raise ValueError("n")
  return n
l = metrics.MultiScaleSpectralLoss(f, [{"n": 1}, {"n": 2}, {"n": 3}])
with ThreadPool(2) as p:
  try:
    r = l(0, 0, pool=p)
  except ValueError:
    pass
  else:
    raise SystemExit("no error: %r" % r)
'''),
dict(id="s18_log_in_place", property="C18",
  needs="power norms (p != 1) of the spectral loss",
  breaks="the distance of decibels is computed without the exponent",
  edits=[("sample/evaluation/metrics.py", '''  loss += alpha * lp_distance(x_stft, y_stft, p=norm_p)
''', '''  loss += alpha * lp_distance(x_stft, y_stft, p=max(1, min(norm_p, 2)))
''')],
  demo='''
import numpy as np
from sample.evaluation import metrics
x = np.cos(np.arange(64.)); y = np.sin(np.arange(64.) * .7)
from scipy import signal
kw = dict(window=signal.get_window("hamming", 16), nperseg=16, nfft=16, noverlap=12)
a, b = (np.abs(signal.stft(v, **kw)[2]) for v in (x, y))
e = np.sum(np.abs(a - b)**3)**(1 / 3)
a, b = (20 * np.log10(np.maximum(v, 1e-3)) for v in (a, b))
e += np.sum(np.abs(a - b)**3)**(1 / 3) / 60
l = metrics.lin_log_spectral_loss(x, y, n=16, norm_p=3)
assert np.isclose(l, e), (l, e)
'''),
dict(id="s19_both_sides", property="C19",
  needs="a draw that gives a negative distance in Bark",
  breaks="the distance of the third partial exceeds the configured limit when it is below the others",
  edits=[("sample/evaluation/random.py", '''    return psycho.bark2hz((b, b, b + delta_bark)) + (0, beat_hz, 0)
''', '''    f = psycho.bark2hz((b, b, b + delta_bark)) + (0, beat_hz, 0)
    # The distance is measured from the nearest partial of the beat
    f[2] += min(0, beat_hz) if delta_bark < 0 else 0
    return f
''')],
  demo='''
import numpy as np
from sample import psycho
from sample.evaluation import random
g = random.BeatsGenerator(seed=1, delta_min=2, delta_max=2)
for _ in range(300):
  f = g.freqs()
  b = psycho.hz2bark(f)
  assert abs(abs(b[2] - b[0]) - 2) < 1e-6, (f, b)
'''),
dict(id="s20_alias_on_read", property="C20",
  needs="the state of a storage requested as a deep copy, modified, and read again",
  breaks="nested arrays are shared between the copy and the storage",
  edits=[("sample/utils/learn.py", '''    return copy.deepcopy(s) if deepcopy else s
''', '''    return {k: list(v) for k, v in s.items()} if deepcopy else s
''')],
  demo='''
import numpy as np
from sample.utils import learn
s = learn.OptionalStorage(save=True)
s.append("k", np.zeros(2))
s.get_state()["k"][0][:] = 7
assert not s["k"][0].any(), s["k"]
'''),
dict(id="s20_padding_append", property="C20",
  needs="values stored at increasing indexes with a hole, then one appended without index",
  breaks="the appended value fills the hole instead of going to the end",
  edits=[("sample/utils/learn.py", '''      if index is None:
        self.cache_[key].append(value)
''', '''      if index is None and None in self.cache_[key][-1:]:
        self.cache_[key][-1] = value
      elif index is None:
        self.cache_[key].append(value)
''')],
  demo='''
from sample.utils import learn
s = learn.OptionalStorage(save=True)
s.append("k", None)
s.append("k", 1)
assert s["k"] == [None, 1], s["k"]
'''),
dict(id="s21_copy_of_defaults", property="C21",
  needs="a dictionary of arguments in which a value is explicitly None",
  breaks="an explicit None is replaced by the default",
  edits=[("sample/utils/__init__.py", '''    d[k] = d.get(k, v)
  return d
''', '''    if d.get(k) is None:
      d[k] = v
  return d
''')],
  demo='''
from sample import utils
assert utils.default_kws({"a": None}, a=1) == {"a": None}
'''),
dict(id="s12_offsets_round", property="C12",
  needs="leading times that are not a whole number of samples",
  breaks="time zero is off by one sample in some channels",
  edits=[("sample/psycho.py", '''      self.offsets = np.ceil(np.multiply(parent.t_c, fs)).astype(int)
''', '''      self.offsets = np.ceil(np.round(np.multiply(parent.t_c, fs), 1)).astype(int)
''')],
  demo='''
import numpy as np
from sample import psycho
f = psycho.GammatoneFilter(f=500., bandwidth=60., t_c=.00505)
b = psycho.GammatoneFilterbank(filters=[f]).precompute(fs=1000.)
n = np.arange(b.irs[0].size)
e = f.wavefun((n - 6) / 1000.)
assert np.allclose(b.irs[0], e), (b.irs[0][:5], e[:5])
f = psycho.GammatoneFilter(f=500., bandwidth=60., t_c=.00502)
b = psycho.GammatoneFilterbank(filters=[f]).precompute(fs=1000.)
e = f.wavefun((n - 6) / 1000.)
assert np.allclose(b.irs[0][:20], e[:20]), (b.irs[0][:5], e[:5])
'''),
dict(id="s15_threshold_exact", property="C15",
  needs="a track in which both amplitudes and the frequency difference are not positive (negative amplitudes given by custom bounds)",
  breaks="beats whose second partial has negative amplitude or lower frequency are not recognized",
  edits=[("sample/beatsdrop/decision.py", '''    d = self.intermediate.append("test", np.abs((f0 - f1, a0, a1)), index=i)
''', '''    d = self.intermediate.append("test",
                                 np.asarray((np.abs(f0 - f1), a0, a1)),
                                 index=i)
''')],
  demo='''
import numpy as np
from sample.beatsdrop import decision
class B:
  params_ = (.5, -.4, 100., 101., 1., 1., 0., 0.)
d = decision.AlmostNotABeatDecisor()
p = d.track_params(0, np.arange(3), {}, B(), (100., 1., .5))
assert len(p) == 2, p
'''),
dict(id="s28_channels_flat", property="C28",
  needs="a multichannel array in Fortran memory order (the transpose of loaded frames)",
  breaks="the samples of the channels are mixed up",
  edits=[("sample/ipython.py", '''          np.reshape(x, newshape=(1 if np.ndim(x) == 1 else np.shape(x)[0],
''', '''          np.reshape(np.ravel(x, order="K"), newshape=(1 if np.ndim(x) == 1 else np.shape(x)[0],
''')],
  demo='''
import numpy as np
from sample import ipython
frames = np.array([[.1, .5], [.2, .6], [.3, .7]])
assert ipython.WebAudio(frames.T, rate=8000).data == ipython.WebAudio(np.ascontiguousarray(frames.T), rate=8000).data
'''),
]

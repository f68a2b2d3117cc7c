GUI = '''
import os, tempfile, types
import numpy as np
from scipy.io import wavfile
import faketk
from sample.widgets import analysis, audioload, main, settings, userfiles
def files(d):
  return userfiles.UserDir(os.path.join(d, "u"))
def book(d):
  ud = files(d)
  return faketk.root(persistent_dir=ud, settings_file=ud.user_file("settings.json"),
                     audio_cache_file=ud.user_file("audio.cache"))
def load(g, d, t, n=400):
  p = os.path.join(d, "a.wav")
  wavfile.write(p, 1000, (np.exp(-np.arange(n) / 200) * np.cos(np.arange(n) * .7) * 20000).astype(np.int16))
  g.answers["askopenfilename"] = p
  faketk.click(faketk.by_text(t, "Load"))
'''

SEEDS = [
dict(id="s22_falsy_setting", property="C22",
     needs="a stored setting that is false or zero while its default is not, and a restart of the GUI",
     breaks="stored settings that are false, zero or empty are replaced by their defaults when the GUI starts",
     edits=[("sample/widgets/settings.py", "        k: settings.get(k, s.get())\n", "        k: settings.get(k) or s.get()\n")],
     files=["faketk.py"], demo=GUI + '''
with tempfile.TemporaryDirectory() as d:
  with faketk.session() as g:
    r, nb = book(d)
    s = settings.SettingsTab(nb)
    s._settings["sinusoidal__tracker__reverse"].var.set(False)
    s._settings["sinusoidal__tracker__min_sine_dur"].var.set("0")
    faketk.click(faketk.by_text(s, "Apply"))
    kw = s.sample_object_kwargs
    assert kw["sinusoidal__tracker__reverse"] == False
  with faketk.session() as g:
    r, nb = book(d)
    s = settings.SettingsTab(nb)
    assert s.sample_object_kwargs["sinusoidal__tracker__reverse"] == False
    assert s.sample_object_kwargs["sinusoidal__tracker__min_sine_dur"] == 0
'''),
dict(id="s26_cached_zero", property="C26",
     needs="a region which starts at the first sample but is not the one that is found automatically, and an accepted reload after a change of theme",
     breaks="the selected region is lost by the reload: it is found again automatically",
     edits=[("sample/widgets/settings.py", '              "audio_trim_start": self.audio_trim_start,\n', '              "audio_trim_start": self.audio_trim_start or None,\n')],
     files=["faketk.py"], demo=GUI + '''
with tempfile.TemporaryDirectory() as d:
  with faketk.session() as g:
    r, nb = book(d)
    t = audioload.AudioLoadTab(nb)
    s = settings.SettingsTab(nb)
    load(g, d, t)
    t.trim_start_input_var.set("0")
    t.trim_stop_input_var.set("0.123")
    assert (t.audio_trim_start, t.audio_trim_stop) == (0, 123)
    g.answers["askyesno"] = True
    s._settings["gui_theme"].var.set("black")
    faketk.click(faketk.by_text(s, "Apply"))
  with faketk.session() as g:
    r, nb = book(d)
    t = audioload.AudioLoadTab(nb)
    assert (t.audio_trim_start, t.audio_trim_stop) == (0, 123), (t.audio_trim_start, t.audio_trim_stop)
'''),
dict(id="s10_floor_modified", property="C10",
     needs="a floor in decibels given as an array, which is used again by the caller",
     breaks="the array of the floors is converted in place",
     edits=[("sample/utils/dsp.py", "    floor = db2a(floor)\n", "    floor = db2a(floor, out=floor if isinstance(floor, np.ndarray) else None)\n")],
     demo='''
import numpy as np
from sample.utils import dsp
f = np.array([-20., -40.])
a = np.array([1., 1e-6])
y0 = dsp.a2db(a, floor=f, floor_db=True)
y1 = dsp.a2db(a, floor=f, floor_db=True)
assert (f == [-20, -40]).all() and (y0 == y1).all(), (f, y0, y1)
'''),
dict(id="s13_stale_margin", property="C13",
     needs="an onset among the first frames of the detection function, before the window of the local average fits",
     breaks="the threshold of the first frames comes from what was in the memory before",
     edits=[("sample/utils/dsp.py", "  out[:m * w] = 0\n", "  out[:w] = 0\n")],
     demo='''
import numpy as np
from sample.utils import dsp
x = np.zeros(60)
x[6] = 10
x[20:] = .01
x = x.astype(np.float32)
out = np.full(60, 1e9, np.float32)
dsp._onset_selection_m(x, w=3, m=3, delta=1.5, out=out)
assert np.allclose(out[:9], 1.5), out[:9]
assert dsp.onset_selection(x)[6]
'''),
dict(id="s29_nyquist_bin", property="C29",
     needs="no low-pass cutoff and an even transform size",
     breaks="the bin of the highest frequency is left at zero",
     edits=[("sample/utils/dsp.py", "fs if lpf is None else lpf),\n", "fs / 2 if lpf is None else lpf),\n")],
     demo='''
import numpy as np
from scipy import signal
from sample.utils import dsp
t = np.sort(np.random.default_rng(0).uniform(0, 16, 40))
x = np.cos(2 * np.pi * .5 * t) + .1 * t
ls, f = dsp.lombscargle_as_fft(t, x, 32)
e = signal.lombscargle(t, x, 2 * np.pi * f[1:])
assert np.allclose(ls[1:], e), (ls[-1], e[-1])
'''),
dict(id="s25_lock_released", property="C25",
     needs="three requests while an analysis is running: the second refused request is not refused",
     breaks="a refused request releases the lock of the running analysis: the next one runs together with it",
     edits=[("sample/widgets/analysis.py", "    if owned:\n", "    if owned or lock.locked():\n")],
     files=["faketk.py"], demo=GUI + '''
from sample.sample import SAMPLE
with tempfile.TemporaryDirectory() as d, faketk.session() as g:
  r, nb = book(d)
  t = audioload.AudioLoadTab(nb)
  s = settings.SettingsTab(nb)
  a = analysis.AnalysisTab(nb)
  for k, v in {"sinusoidal__n": "64", "wsize": "64", "sinusoidal__tracker__h": "16"}.items():
    s._settings[k].var.set(v)
  faketk.click(faketk.by_text(s, "Apply"))
  load(g, d, t, 600)
  fits, done = [], []
  fit = SAMPLE.fit
  def count(self, *b, **k):
    fits.append(1)
    return fit(self, *b, **k)
  SAMPLE.fit = count
  def update():
    if not done:
      done.append(1)
      for _ in range(3):
        faketk.click(faketk.by_text(a, "Analyze"))
  faketk.on_update(a, update)
  try:
    faketk.click(faketk.by_text(a, "Analyze"))
  except RuntimeError:
    pass
  assert done and len(fits) == 1, fits
'''),
dict(id="s16_custom_start", property="C16",
     needs="a user-defined start whose second frequency is higher than the first and than all those of the track",
     breaks="a start given by the user is out of the default bounds and refused",
     edits=[("sample/beatsdrop/regression.py", "    f_max = max(*p[2:4], f_max) + df\n", "    f_max = max(p[2], f_max) + df\n")],
     demo='''
import numpy as np
from sample.beatsdrop import regression
t = np.arange(60) / 100
f = np.full(60, 440.) + .1 * np.sin(t)
a = -20 - 30 * t
def start(t, a, f, res, model):
  return .05, .05, 438., 442., .5, .5, 0., 0.
m = regression.DualBeatRegression(params_init=start)
m.fit(t, a, f, max_nfev=2)
lo, hi = m.bounds_
assert all(l < x < h for l, x, h in zip(lo, start(0, 0, 0, 0, 0), hi))
'''),
dict(id="s04_gap_closed", property="C04",
     needs="a track with a gap, as those merged from two segments",
     breaks="the frames after a gap are taken as if they followed those before it",
     edits=[("sample/sample.py", '    time_axis = np.arange(t["mag"].size, dtype=float)[notnans]\n', '    time_axis = np.arange(np.count_nonzero(notnans), dtype=float)\n')],
     demo='''
import numpy as np
from sample.sample import SAMPLE
m = SAMPLE(sinusoidal__tracker__fs=1000, sinusoidal__tracker__h=10, sinusoidal__w=np.hanning(16), sinusoidal__n=16)
mag = np.array([-1., -2, np.nan, np.nan, -5, -6])
_, t, tr = m._preprocess_track(0, np.zeros(1000), dict(mag=mag, freq=mag + 100, start_frame=3))
d = np.abs(np.diff(t))
assert np.allclose(d, [.01, .03, .01]), t
'''),
dict(id="s14_half_phase", property="C14",
     needs="two partials with different initial phases and different amplitudes",
     breaks="the initial phase of the beat is that of half the amplitude difference only",
     edits=[("sample/beatsdrop/__init__.py", '    y0 = np2pg.multiply.op(self.compute(0, "a_hat"),\n', '    y0 = np2pg.multiply.op(abs(self.compute(0, "a_hat")),\n')],
     demo='''
import numpy as np
from sample import beatsdrop
b = beatsdrop.Beat(a0=.2, a1=1., f0=5., f1=6., p0=.7, p1=-.4)
t = np.arange(2000) / 2000
x = .2 * np.cos(2 * np.pi * 5 * t + .7) + np.cos(2 * np.pi * 6 * t - .4)
assert np.allclose(b.x(t), x, atol=1e-3), np.abs(b.x(t) - x).max()
'''),
dict(id="s19_beat_in_range", property="C19",
     needs="a positive beat frequency and an answer of the generator at the upper end of the range",
     breaks="the second frequency exceeds the upper end of the range",
     edits=[("sample/evaluation/random.py", "            (psycho.hz2bark(self.f_max) - psycho.hz2bark(self.f_max - beat_hz),\n", "            (psycho.hz2bark(self.f_max + beat_hz) - psycho.hz2bark(self.f_max),\n")],
     demo='''
import numpy as np
from sample.evaluation import random
class Rng:
  def beta(self, a, b, **k): return 1.
  def uniform(self, lo, hi, **k): return lo
g = random.BeatsGenerator(rng=Rng(), delta_min=0, delta_max=0)
f = g.freqs()
assert (f <= g.f_max + 1e-6).all() and (f >= g.f_min - 1e-6).all(), f
'''),
dict(id="s11_width_from_first", property="C11",
     needs="a filterbank with a bandwidth function and a number of filters",
     breaks="the outermost frequencies are used as centers",
     edits=[("sample/psycho.py", "      flim = flim[1:-1]\n", "      flim = flim[:n_filters]\n")],
     demo='''
import numpy as np
from sample import psycho
_, c = psycho.mel_triangular_filterbank(np.linspace(0, 4000, 50), n_filters=3, bandwidth=lambda f: 100., flim=(100, 3000))
e = psycho.mel2hz(np.linspace(psycho.hz2mel(100), psycho.hz2mel(3000), 5))[1:-1]
assert np.allclose(c, e), (c, e)
'''),
]

SEEDS = [
dict(id="s04_reverse_partial_hop", property="C04",
  needs="reverse analysis of a sound whose length is not a multiple of the hop size, with large hops",
  breaks="amplitudes are too large by the decay over the samples after the last whole hop",
  edits=[("sample/sample.py", '''      time_axis = np.size(x) / self.sinusoidal.fs - time_axis
''', '''      n_hops = np.size(x) // self.sinusoidal.h
      time_axis = n_hops / self.sinusoidal.frame_rate - time_axis
''')],
  demo='''
import numpy as np
from sample import SAMPLE
fs, h = 8000, 256
def amp(n):
  t = np.arange(n) / fs
  x = .5 * np.exp(-2 * t / .2) * np.cos(2 * np.pi * 500 * t)
  m = SAMPLE(sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=h, sinusoidal__n=512,
             sinusoidal__w=np.hanning(512), sinusoidal__tracker__reverse=True).fit(x)
  assert m.freqs_.size == 1, m.param_matrix_
  return m.amps_[0]
a = [amp(4096 + k) for k in (0, 60, 120, 180, 240)]
assert max(a) / min(a) < 1.1, a
'''),
dict(id="s08_zero_modes", property="C08",
  needs="resynthesis with zero modes",
  breaks="asking for no modes synthesizes all of them (or max_n_modes)",
  edits=[("sample/sample.py", '''    if n_modes is None:
      if self.max_n_modes is None:
        n_modes = self.freqs_.size
      else:
        n_modes = self.max_n_modes
''', '''    n_modes = n_modes or self.max_n_modes or self.freqs_.size
''')],
  demo='''
import numpy as np
from sample import SAMPLE
m = SAMPLE()
m.param_matrix_ = np.array([[100., 200.], [.3, .2], [.5, .1]])
y = m.predict(np.arange(50) / 1000, n_modes=0)
assert not np.any(y), y
m.set_params(max_n_modes=0)
y = m.predict(np.arange(50) / 1000)
assert not np.any(y), y
'''),
dict(id="s09_silent_mode_phase", property="C09",
  needs="a mode with zero amplitude before another one, and explicit phases",
  breaks="modes after a silent one get the phase of the previous mode",
  edits=[("sample/sample.py", '''  osc = (2 * np.pi * col(x)) @ row(freqs)
''', '''  # Silent modes do not contribute
  heard = np.flatnonzero(np.reshape(amps, -1))
  freqs, decays, amps = (np.reshape(v, -1)[heard]
                         for v in (freqs, decays, amps))
  osc = (2 * np.pi * col(x)) @ row(freqs)
'''), ("sample/sample.py", '''    np.add(osc, row(phases), out=osc)
''', '''    np.add(osc, row(phases)[:, :heard.size], out=osc)
''')],
  demo='''
import numpy as np
from sample.sample import additive_synth
t = np.arange(40) / 1000
a = additive_synth(t, [100, 200], [.3, .2], [0, .5], phases=[1., -1.])
b = additive_synth(t, [200], [.2], [.5], phases=[-1.])
assert np.allclose(a, b), (a, b)
'''),
dict(id="s12_precomputed_memo", property="C12",
  needs="a filterbank used first for a real and then for an analytic cochleagram at the same rate",
  breaks="the second cochleagram is computed with the real impulse responses of the first one",
  edits=[("sample/psycho.py", '''    return GammatoneFilterbank.PrecomputedIRBank(parent=self,
                                                 fs=fs,
                                                 analytic=analytic)
''', '''    memo = self.__dict__.setdefault("_precomputed", {})
    if fs not in memo:
      memo[fs] = GammatoneFilterbank.PrecomputedIRBank(parent=self,
                                                       fs=fs,
                                                       analytic=analytic)
    return memo[fs]
''')],
  demo='''
import numpy as np
from sample import psycho
x = np.cos(np.arange(300) * .3)
kw = dict(freqs=[200., 400., 600.])
fb = psycho.GammatoneFilterbank(**kw)
psycho.cochleagram(x, fs=4000, filterbank=fb)
a, _ = psycho.cochleagram(x, fs=4000, filterbank=fb, analytic="ir")
b, _ = psycho.cochleagram(x, fs=4000, filterbank=psycho.GammatoneFilterbank(**kw), analytic="ir")
assert np.iscomplexobj(a) and np.allclose(a, b)
'''),
dict(id="s13_envelope_to_zero", property="C13",
  needs="a peak followed, after instants below the mean, by a smaller peak whose height lies between the two envelopes",
  breaks="the slow envelope decays towards the mean level of the function, not towards its current value, and masks the second onset",
  edits=[("sample/utils/dsp.py", '''    out[index] = g = max(f, alpha * g + alpha_ * f)
''', '''    out[index] = g = max(f, alpha * g)
'''), ("sample/utils/dsp.py", '''  alpha_ = 1 - alpha
''', "")],
  demo='''
import itertools
import numpy as np
from sample.utils import dsp
def ref(x, w, m, alpha, delta):
  x = np.asarray(x, float)
  y = (x - np.mean(x)) / np.std(x)
  n = len(x)
  g, prev, on = 0, 0, np.zeros(n, bool)
  gs = []
  for v in y:
    g = max(v, alpha * g + (1 - alpha) * v)
    gs.append(g)
  for i in range(m * w, n - w):
    on[i] = (y[i] >= gs[i - 1] and y[i] >= np.mean(y[i - m * w:i + w + 1]) + delta
             and y[i] == max(y[i - w:i + w + 1]))
  return on
for x in itertools.product((.1, 1., 2., 4.), repeat=6):
  if np.std(x):
    a = dsp.onset_selection(np.array(x), w=1, m=1, alpha=.5, delta=.01)
    b = ref(x, 1, 1, .5, .01)
    assert np.array_equal(a[1:], b[1:]), (x, a, b)
'''),
dict(id="s15_sort_phases", property="C15",
  needs="a pair of partials that has to be swapped and whose initial phases differ",
  breaks="partials are sorted but keep the phase of the other one",
  edits=[("sample/beatsdrop/regression.py", '''    p = (p[1], p[0], p[3], p[2], p[5], p[4], p[7], p[6])
''', '''    p = (*p[1::-1], *p[3:1:-1], *p[5:3:-1], *p[6:])
''')],
  demo='''
from sample.beatsdrop.regression import sort_params
p = (.1, .9, 100., 101., .2, .3, .5, -1.)
q = (.9, .1, 101., 100., .3, .2, -1., .5)
for d in (False, True):
  a, b = sort_params(p, descending=d), sort_params(q, descending=d)
  assert tuple(a) == tuple(b), (a, b)
'''),
dict(id="s16_stale_beat", property="C16",
  needs="a beat whose frequencies are swapped by the disambiguation after the regression",
  breaks="predictions use the parameters of before the disambiguation",
  edits=[("sample/beatsdrop/regression.py", '''      self.params_ = min(hypoteses, key=_ssr)
      self.beat_ = beatsdrop.ModalBeat(*self.params_)
''', '''      self.params_ = min(hypoteses, key=_ssr)
''')],
  demo='''
import numpy as np
from sample import beatsdrop
from sample.beatsdrop import regression
n = 0
for f1 in (101., 102., 103., 104., 105.):
  for a1 in (.3, .5, .9):
    for p1 in (0., 1., 2., 3.):
      t = np.arange(300) / 100.
      b = beatsdrop.ModalBeat(1., a1, 100., f1, 1., 1.3, 0., p1)
      am, fm = b.compute(t, ("am", "fm"))
      with np.errstate(all="ignore"):
        try:
          r = regression.DualBeatRegression(fs=100).fit(t, 20 * np.log10(am), np.abs(fm) / 2 / np.pi,
                                                        max_nfev=5)
        except ValueError:
          continue
      n += 1
      e = beatsdrop.ModalBeat(*r.params_).compute(t, ("am", "fm"))
      g = r.predict(t, "am", "fm")
      assert np.allclose(e, g), (f1, a1, p1)
assert n > 5
'''),
dict(id="s17_shared_model", property="C17",
  needs="two evaluations of a loss, the first of which overrides one more parameter",
  breaks="parameters given to one evaluation stay set in the model of the optimizer and in later evaluations",
  edits=[("sample/optimize.py", '''    if self.clip:
      peak = np.max(np.abs(x))

    def loss_''', '''    if self.clip:
      peak = np.max(np.abs(x))
    model = base.clone(self.model)

    def loss_'''), ("sample/optimize.py", '''      model = base.clone(self.model)
      model.set_params(**self._kwargs(
          *args,''', '''      model.set_params(**self._kwargs(
          *args,''')],
  demo='''
import numpy as np
import sample
from sample import optimize
t = np.arange(8000) / 4000
x = .5 * np.cos(2 * np.pi * 300 * t) * np.exp(-9 * t) + .3 * np.cos(2 * np.pi * 700 * t) * np.exp(-9 * t)
seen = []
class M(sample.SAMPLE):
  def fit(self, *a, **k):
    seen.append(self.max_n_modes)
    return super().fit(*a, **k)
o = optimize.SAMPLEOptimizer(model=M(), remap=None, sinusoidal__tracker__peak_threshold=[-60.])
f = o.loss(x, 4000)
f((-60.,), max_n_modes=1)
f((-60.,))
assert seen == [1, None], seen
'''),
dict(id="s18_one_shot_scales", property="C18",
  needs="a multiscale loss object used more than once",
  breaks="every evaluation after the first one is zero",
  edits=[("sample/evaluation/metrics.py", '''    self.funcs = [functools.partial(spectral_loss, **kw) for kw in stfts]
''', '''    self.funcs = (functools.partial(spectral_loss, **kw) for kw in stfts)
''')],
  demo='''
import numpy as np
from sample.evaluation import metrics
l = metrics.MultiScaleSpectralLoss(metrics.lin_log_spectral_loss, [{"n": 64}, {"n": 128}])
x, y = np.cos(np.arange(400) * .3), np.cos(np.arange(400) * .4)
assert l(x, y) == l(x, y) > 0
'''),
dict(id="s19_empty_batch", property="C19",
  needs="a batch of zero elements",
  breaks="an empty batch has one element, and the following sounds with the same seed differ",
  edits=[("sample/evaluation/random.py", '''    x = [func(*args, **kwargs) for _ in range(1 if n is None else n)]
''', '''    x = [func(*args, **kwargs) for _ in range(n or 1)]
''')],
  demo='''
from sample.evaluation import random
g = random.BeatsGenerator(seed=1)
assert len(g.freqs(size=0)) == 0
'''),
dict(id="s20_class_default", property="C20",
  needs="two models of the same class, one of which changes a parameter of its default sub-model",
  breaks="default sub-models are shared: the parameter changes in both models",
  edits=[("sample/utils/learn.py", '''    if self.fdef(parent, v):
      v = self._default_fn(parent)
''', '''    if self.fdef(parent, v):
      v = getattr(parent, self._attr_name, None)
      if v is None or self.fdef(parent, v):
        v = self._default_fn(parent)
''')],
  demo='''
from sample import SAMPLE
from sample.sms import mm
m = SAMPLE()
a = m.sinusoidal
a.set_params(n=64)
m.sinusoidal = None
assert m.sinusoidal is not a and m.sinusoidal.n == mm.ModalModel().n
'''),
dict(id="s21_filter_left_on_error", property="C21",
  needs="a filtered function that raises an exception",
  breaks="the warning filters are not restored when the function fails",
  edits=[("sample/utils/__init__.py", '''    with ctx_fn() as y:
      flt_fn()
      if traces is not None:
        traces.append(y)
      return func(*ars, **kws)
''', '''    ctx = ctx_fn()
    y = ctx.__enter__()
    flt_fn()
    if traces is not None:
      traces.append(y)
    out = func(*ars, **kws)
    ctx.__exit__(None, None, None)
    return out
''')],
  demo='''
import warnings
from sample import utils
@utils.warnings_simplefilter(action="ignore")
def f(x):
  return 1 / x
f(1)
a = list(warnings.filters)
try:
  f(0)
except ZeroDivisionError:
  pass
assert warnings.filters == a
'''),
dict(id="s22_window_after_fft", property="C22",
  needs="a window larger than the FFT in the settings",
  breaks="the FFT size shown and saved is not that of the analysis",
  edits=[("sample/widgets/settings.py", '''  wsize = min(wsize, sinusoidal__n)
''', '''  nfft = max(sinusoidal__n, next_power_of_2(wsize))
'''), ("sample/widgets/settings.py", '''  out_kw = {"sinusoidal__n": sinusoidal__n, "sinusoidal__w": w}
''', '''  out_kw = {"sinusoidal__n": nfft, "sinusoidal__w": w}
''')],
  files=["faketk.py"],
  demo='''
import os, tempfile
import faketk
from sample.widgets import settings, userfiles
with tempfile.TemporaryDirectory() as d, faketk.session() as g:
  ud = userfiles.UserDir(os.path.join(d, "u"))
  r, nb = faketk.root(persistent_dir=ud, settings_file=ud.user_file("settings.json"),
                      audio_cache_file=ud.user_file("audio.cache"))
  s = settings.SettingsTab(nb)
  s._settings["sinusoidal__n"].var.set("128")
  s._settings["wsize"].var.set("500")
  faketk.click(faketk.by_text(s, "Apply"))
  kw = s.sample_object_kwargs
  j = s.settings_file.load_json()
  assert not g.errors, g.errors
  assert kw["sinusoidal__n"] == j["sinusoidal__n"] == s._settings["sinusoidal__n"].get()
  assert kw["sinusoidal__w"].size == j["wsize"] <= j["sinusoidal__n"]
'''),
dict(id="s23_quit_before_cache", property="C23",
  needs="a crash between the deletion of the cached state and the moment when it has been read",
  breaks="a crash during the start after a reload loses the audio that had been cached",
  edits=[("sample/widgets/userfiles.py", '''      return pickle.read_pickled(self.path)
''', '''      data = pickle.read_pickled(self.path)
      self.delete()
      return data
''')],
  files=["faketk.py"],
  demo='''
import os, tempfile
from sample.widgets import userfiles
with tempfile.TemporaryDirectory() as d:
  f = userfiles.UserDir(os.path.join(d, "u")).user_file("audio.cache")
  f.save_pickled({"a": 1})
  assert f.load_pickled() == {"a": 1}
  assert f.exists() and f.load_pickled() == {"a": 1}
'''),
dict(id="s24_last_sample", property="C24",
  needs="a typed end time beyond the end of the file",
  breaks="the last sample of the file can not be selected any more",
  edits=[("sample/widgets/audioload.py", '''                                   min(self.audio_x.size, value))
''', '''                                   min(self.audio_x.size - 1, value))
''')],
  files=["faketk.py"],
  demo='''
import os, tempfile
import numpy as np
from scipy.io import wavfile
import faketk
from sample.widgets import audioload, userfiles
with tempfile.TemporaryDirectory() as d, faketk.session() as g:
  ud = userfiles.UserDir(os.path.join(d, "u"))
  r, nb = faketk.root(persistent_dir=ud, settings_file=ud.user_file("settings.json"),
                      audio_cache_file=ud.user_file("audio.cache"))
  t = audioload.AudioLoadTab(nb)
  p = os.path.join(d, "a.wav")
  wavfile.write(p, 1000, np.arange(400, dtype=np.int16))
  g.answers["askopenfilename"] = p
  faketk.click(faketk.by_text(t, "Load"))
  t.trim_stop_input_var.set("0.2")
  assert t.audio_trim_stop == 200
  t.trim_stop_input_var.set("7")
  assert t.audio_trim_stop == 400, t.audio_trim_stop
'''),
dict(id="s25_second_click", property="C25",
  needs="two clicks on Analyze while an analysis is running",
  breaks="the first click is refused but frees the lock, so that the second one starts another analysis inside the first",
  edits=[("sample/widgets/analysis.py", '''  finally:
    if owned:
      lock.release()
''', '''  finally:
    if lock.locked():
      lock.release()
''')],
  files=["faketk.py"],
  demo='''
import os, tempfile
import numpy as np
from scipy.io import wavfile
import faketk
from sample.sample import SAMPLE
from sample.widgets import analysis, audioload, settings, userfiles
with tempfile.TemporaryDirectory() as d, faketk.session() as g:
  ud = userfiles.UserDir(os.path.join(d, "u"))
  r, nb = faketk.root(persistent_dir=ud, settings_file=ud.user_file("settings.json"),
                      audio_cache_file=ud.user_file("audio.cache"))
  t = audioload.AudioLoadTab(nb)
  s = settings.SettingsTab(nb)
  a = analysis.AnalysisTab(nb)
  for k, v in {"sinusoidal__n": "64", "wsize": "64", "sinusoidal__tracker__h": "16"}.items():
    s._settings[k].var.set(v)
  faketk.click(faketk.by_text(s, "Apply"))
  p = os.path.join(d, "a.wav")
  x = np.exp(-np.arange(600) / 200) * np.cos(np.arange(600) * .7)
  wavfile.write(p, 1000, np.round(20000 * x).astype(np.int16))
  g.answers["askopenfilename"] = p
  faketk.click(faketk.by_text(t, "Load"))
  fits, done = [], []
  fit = SAMPLE.fit
  def count(self, *b, **k):
    fits.append(1)
    return fit(self, *b, **k)
  SAMPLE.fit = count
  def update():
    if not done:
      done.append(1)
      faketk.click(faketk.by_text(a, "Analyze"))
      faketk.click(faketk.by_text(a, "Analyze"))
  faketk.on_update(a, update)
  faketk.click(faketk.by_text(a, "Analyze"))
  assert done and len(fits) == 1, fits
'''),
dict(id="s26_cache_at_close", property="C26",
  needs="a session after a reload that is killed (or crashes), then another start",
  breaks="the cached audio is resumed again by a start that does not follow a reload",
  edits=[("sample/widgets/main.py", '''    # Clear cache
    if self.notebook.audio_cache_file.is_valid(
    ) and self.notebook.audio_cache_file.exists():
      self.notebook.audio_cache_file.delete()

''', ""), ("sample/widgets/main.py", '''  def quit(self):
    logging.info("Quitting GUI")
    return super().quit()
''', '''  def on_closing(self):
    # Clear cache
    if self.notebook.audio_cache_file.is_valid(
    ) and self.notebook.audio_cache_file.exists():
      self.notebook.audio_cache_file.delete()
    super().on_closing()

  def quit(self):
    logging.info("Quitting GUI")
    return super().quit()
''')],
  files=["faketk.py"],
  demo='''
import os, tempfile
import numpy as np
import faketk
from sample.widgets import main, userfiles
with tempfile.TemporaryDirectory() as d:
  ud = userfiles.UserDir(os.path.join(d, "u"))
  ud.user_file("audio.cache").save_pickled({"audio_x": np.zeros(9), "audio_sr": 8,
                                            "audio_trim_start": 0, "audio_trim_stop": 9})
  with faketk.session():
    a = main.SAMPLEGUI(persistent_dir=ud)
    assert a.tabs[0].audio_x.size == 9
    # killed here
  with faketk.session():
    a = main.SAMPLEGUI(persistent_dir=ud)
    assert a.tabs[0].audio_x is None
'''),
]

GUI = '''
import os, tempfile, types
import numpy as np
from scipy.io import wavfile
import faketk
from sample.widgets import analysis, audioload, main, settings, userfiles
def files(d):
  return userfiles.UserDir(os.path.join(d, "u"))
def book(d):
  ud = files(d)
  return faketk.root(persistent_dir=ud, settings_file=ud.user_file("settings.json"),
                     audio_cache_file=ud.user_file("audio.cache"))
def load(g, d, t, n=400, fs=1000, name="a.wav"):
  p = os.path.join(d, name)
  wavfile.write(p, fs, (np.exp(-np.arange(n) / 200) * np.cos(np.arange(n) * .7) * 20000).astype(np.int16))
  g.answers["askopenfilename"] = p
  faketk.click(faketk.by_text(t, "Load"))
'''

SEEDS = [
dict(id="s01_exact_minimum", property="C01",
     needs="a minimum duration which is a whole number of frames, and a track of exactly that length",
     breaks="tracks whose length is exactly the minimum duration are not visible",
     edits=[("sample/sms/sm.py", "    return max(2, math.ceil(self.min_sine_dur * self.frame_rate))\n", "    return max(2, 1 + math.floor(self.min_sine_dur * self.frame_rate))\n")],
     demo='''
import numpy as np
from sample.sms import sm
t = sm.SineTracker(fs=1000, h=100, min_sine_dur=.3).reset()
for _ in range(3):
  t(np.array([100.]), np.array([-10.]), np.array([0.]))
assert len(list(t.all_tracks_)) == 1
'''),
dict(id="s02_merge_threshold_side", property="C02",
     needs="two segments of a partial whose distance in frequency lies between the thresholds at the end of the first and at the beginning of the second",
     breaks="the deviation threshold for joining two tracks is the one at the frequency of the first instead of the second",
     edits=[("sample/sms/mm.py", '      if u is not None and df < self.df(t["freq"][0]):\n', '      if u is not None and df < self.df(u["freq"][-1]):\n')],
     demo='''
import numpy as np
from sample.sms import mm
t = mm.ModalTracker(fs=1000, h=10, min_sine_dur=0, freq_dev_offset=0, freq_dev_slope=.1, frequency_bounds=(None, None)).reset()
def frame(*fm):
  t(np.array([float(f) for f, _ in fm]), np.array([float(m) for _, m in fm]), np.zeros(len(fm)))
# 100 < .1 * 1050, 100 > .1 * 950
for f in (950, None, None, 1050):
  for i in range(3 if f else 1):
    frame(*([(f, -10 - i)] if f else []))
frame()
n = len(list(t.all_tracks_))
assert n == 1, n
'''),
dict(id="s03_plateau", property="C03",
     needs="a spectrum in which two adjacent bins have exactly the same magnitude, above their neighbours",
     breaks="the second bin of a plateau is taken as a peak: it is not greater than both neighbours",
     edits=[("sample/sms/dsp.py", "      np.greater(x[1:-1], x[:-2]),  # greater than previous sample\n", "      np.greater_equal(x[1:-1], x[:-2]),  # greater than previous sample\n")],
     demo='''
import numpy as np
from sample.sms import dsp
assert dsp.peak_detect(np.array([0., 1., 1., 0., 2., 0.])).tolist() == [4]
'''),
dict(id="s05_tracker_override", property="C05",
     needs="a tracker that has already been used, given as an argument of a fit",
     breaks="the tracks of the previous use of the tracker are among those of the new fit",
     edits=[("sample/sms/sm.py", "    self.intermediate.reset()\n    self.tracker.reset()\n    self.w_ =", "    self.intermediate.reset()\n    if \"tracker\" not in kwargs:\n      self.tracker.reset()\n    self.w_ =")],
     demo='''
import numpy as np
from sample.sms import mm
x = np.exp(-np.arange(8000) / 4000) * np.cos(2 * np.pi * 1000 * np.arange(8000) / 44100)
a = mm.ModalModel(tracker__h=200, tracker__min_sine_dur=0)
n = sum(t["freq"].size for t in a.fit(x).tracks_)
b = mm.ModalModel().fit(x, tracker=a.tracker)
k = sum(t["freq"].size for t in b.tracks_)
assert k == n, (n, k)
'''),
dict(id="s06_restore_on_success", property="C06",
     needs="a parallel fit that fails, then another use of the same model",
     breaks="after a failed parallel fit, the model keeps the storage of the manager, which is gone: the next fit fails",
     edits=[("sample/_training.py", "    finally:\n      model.set_params(**{key: original})\n", "    except GeneratorExit:\n      raise\n    else:\n      model.set_params(**{key: original})\n")],
     demo='''
import numpy as np
import sample


def bad(_):
  raise KeyError("bad")


if __name__ == "__main__":
  x = np.exp(-np.arange(8000) / 4000) * np.cos(2 * np.pi * 1000 * np.arange(8000) / 44100)
  m = sample.SAMPLE(sinusoidal__intermediate__save=True)
  try:
    m.fit(x, n_jobs=2, freq_reduce=bad)
  except KeyError:
    pass
  else:
    raise AssertionError("no error")
  n = m.fit(x, freq_reduce=np.mean).freqs_.size
  assert n == sample.SAMPLE().fit(x).freqs_.size
'''),
dict(id="s06_pool_closed", property="C06",
     needs="two parallel fits with the same pool, given by the user",
     breaks="a fit closes the pool of the user, which cannot be used any more",
     edits=[("sample/_training.py", "      fit_args_.starmap = functools.partial(_progress_starmap, pool, fit_args_)\n    yield fit_args_\n", "      fit_args_.starmap = functools.partial(_progress_starmap, pool, fit_args_)\n    yield fit_args_\n    if pool is not None:\n      pool.close()\n")],
     demo='''
import multiprocessing
import numpy as np
import sample
if __name__ == "__main__":
  x = np.exp(-np.arange(8000) / 4000) * np.cos(2 * np.pi * 1000 * np.arange(8000) / 44100)
  m = sample.SAMPLE()
  with multiprocessing.Pool(2) as p:
    a = m.fit(x, pool=p).param_matrix_
    b = m.fit(x, pool=p).param_matrix_
  assert np.array_equal(a, b)
'''),
dict(id="s08_zero_modes", property="C08",
     needs="a maximum of zero modes",
     breaks="with a maximum of zero modes all of them are resynthesized",
     edits=[("sample/sample.py", "      if self.max_n_modes is None:\n        n_modes = self.freqs_.size\n      else:\n        n_modes = self.max_n_modes\n", "      n_modes = self.max_n_modes or self.freqs_.size\n")],
     demo='''
import numpy as np
import sample
m = sample.SAMPLE(max_n_modes=0)
m.param_matrix_ = np.array([[100., 200.], [1., 1.], [.5, .25]])
assert (m.predict(np.arange(10) / 1000) == 0).all()
'''),
dict(id="s12_fast_hilbert", property="C12",
     needs="analytic signals of the output, with a length that is not a product of small primes",
     breaks="the analytic output is computed on a longer, zero-padded signal: its imaginary part differs",
     edits=[("sample/psycho.py", '  if analytic == "output":\n    out = signal.hilbert(out)\n', '  if analytic == "output":\n    n = np.shape(out)[-1]\n    out = signal.hilbert(out, N=1 << int(np.ceil(np.log2(n))))[..., :n]\n')],
     demo='''
import numpy as np
from scipy import signal
from sample import psycho
x = np.cos(np.arange(301) * .3)
fb = psycho.GammatoneFilterbank(freqs=(100., 300.))
r, _ = psycho.cochleagram(x, fs=2000, filterbank=fb, postprocessing=None)
y, _ = psycho.cochleagram(x, fs=2000, filterbank=fb, analytic="output")
assert np.allclose(y, signal.hilbert(r), atol=1e-9 * np.abs(r).max())
'''),
dict(id="s17_hop_negative", property="C17",
     needs="an overlap larger than one",
     breaks="an overlap larger than one gives a negative hop",
     edits=[("sample/optimize.py", "    hopsize = max(min(hopsize, wsize), 1)\n", "    hopsize = min(hopsize, wsize) or 1\n")],
     demo='''
from sample import optimize
assert optimize.sample_kwargs_remapper(sinusoidal__overlap=1.5)["sinusoidal__tracker__h"] == 1
'''),
dict(id="s19_list_of_one", property="C19",
     needs="a list of exactly one random value",
     breaks="asking for a list of one value gives the value",
     edits=[("sample/evaluation/random.py", "    return x[0] if n is None else x\n", "    return x[0] if n in (None, 1) else x\n")],
     demo='''
from sample.evaluation import random
g = random.BeatsGenerator(seed=1)
a = g.decays(size=1)
assert isinstance(a, list) and len(a) == 1 and len(a[0]) == 3, a
'''),
dict(id="s23_directory_at_path", property="C23",
     needs="a directory in the place of the file of the settings",
     breaks="a directory in the place of the settings is taken for a file: the GUI does not start",
     edits=[("sample/widgets/userfiles.py", "      return os.path.isfile(self.path)\n", "      return os.path.exists(self.path)\n")],
     demo='''
import os, tempfile
from sample.widgets import userfiles
with tempfile.TemporaryDirectory() as d:
  os.mkdir(os.path.join(d, "settings.json"))
  f = userfiles.UserDir(d).user_file("settings.json")
  assert not f.exists()
  assert userfiles.UserTtkTheme(f).get() == userfiles.UserTtkTheme.default()
'''),
dict(id="s24_rate_of_failed", property="C24",
     needs="a file of another rate, without samples, loaded after a good one",
     breaks="a failed load changes the sample rate of the audio that stays loaded",
     edits=[("sample/widgets/audioload.py", "        sr, x = wavfile.read(filename)\n", "        self.audio_sr, x = wavfile.read(filename)\n"),
            ("sample/widgets/audioload.py", "        self.audio_sr = sr\n        self.audio_resynth_x = None\n", "        self.audio_resynth_x = None\n")],
     files=["faketk.py"], demo=GUI + '''
with tempfile.TemporaryDirectory() as d, faketk.session() as g:
  r, nb = book(d)
  t = audioload.AudioLoadTab(nb)
  load(g, d, t)
  load(g, d, t, n=0, fs=2000, name="b.wav")
  assert t.audio_x.size == 400 and t.audio_sr == 1000, t.audio_sr
'''),
dict(id="s25_rate_of_model", property="C25",
     needs="an analysis, then another audio file with a different rate, then an export without analysing again",
     breaks="the exported file has the rate of the analysed audio while its samples have that of the loaded one",
     edits=[("sample/widgets/analysis.py", "        wavfile.write(filename=filename, rate=self.audio_sr, data=x)\n", "        wavfile.write(filename=filename,\n                      rate=self.sample_object.sinusoidal.fs,\n                      data=x)\n")],
     files=["faketk.py"], demo=GUI + '''
with tempfile.TemporaryDirectory() as d, faketk.session() as g:
  r, nb = book(d)
  t = audioload.AudioLoadTab(nb)
  s = settings.SettingsTab(nb)
  a = analysis.AnalysisTab(nb)
  load(g, d, t, n=4000, fs=8000)
  faketk.click(faketk.by_text(a, "Analyze"))
  load(g, d, t, n=4000, fs=16000, name="b.wav")
  o = os.path.join(d, "o.wav")
  g.answers["asksaveasfilename"] = o
  faketk.click(faketk.by_text(a, "Export WAV"))
  fs, x = wavfile.read(o)
  assert fs == 16000, fs
'''),
dict(id="s29_explicit_zero_cutoff", property="C29",
     needs="a high-pass cutoff of zero, given explicitly",
     breaks="the mean is missing from the periodogram when the lower cutoff is zero",
     edits=[("sample/utils/dsp.py", "  if i < 1:\n    ls[0]", "  if hpf is None:\n    ls[0]")],
     demo='''
import numpy as np
from sample.utils import dsp
t = np.arange(20.); x = np.cos(t) + 3
a, _ = dsp.lombscargle_as_fft(t, x, 16)
b, _ = dsp.lombscargle_as_fft(t, x, 16, hpf=0)
assert np.array_equal(a, b)
'''),
]

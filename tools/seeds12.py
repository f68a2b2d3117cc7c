exec(open("/verif/tools/seeds9.py").read().split("SEEDS = [")[0])
EVAL = '''
import contextlib, io, os, sys, types
import numpy as np
sys.path.insert(0, os.path.join(os.getcwd(), "scripts", "beatsdrop"))
sys.path.insert(0, os.path.join(os.getcwd(), "scripts", "cim22"))
import matplotlib
matplotlib.use("Agg")
'''
SEEDS = [
dict(id="s22_jobs_forgotten", property="C22",
     needs="a number of jobs which is set while multiprocessing is not enabled",
     breaks="the number of jobs is replaced by zero in what is shown and kept",
     edits=[("sample/widgets/settings.py", '''  in_kw = {"parallel": parallel, "n_jobs": n_jobs}
  out_kw = {"n_jobs": n_jobs if parallel else 0}
''', '''  n_jobs = n_jobs if parallel else 0
  in_kw = {"parallel": parallel, "n_jobs": n_jobs}
  out_kw = {"n_jobs": n_jobs}
''')],
     demo=GUI + '''
with faketk.session() as g, tempfile.TemporaryDirectory() as d:
  r, nb = book(d)
  t = settings.SettingsTab(nb)
  t._settings["n_jobs"].set("6")
  t.apply_cbk()
  assert nb.settings_file.load_json()["n_jobs"] == 6, nb.settings_file.load_json()
'''),
dict(id="s15_negative_amps", property="C15",
     needs="a regressed amplitude which is negative",
     breaks="the amplitude is compared with its sign: the beat is rejected",
     edits=[("sample/beatsdrop/decision.py", 'np.abs((f0 - f1, a0, a1))', '(np.abs(f0 - f1), a0, a1)')],
     demo='''
import types
import numpy as np
from sample.beatsdrop import decision
for cls in [c for c in vars(decision).values() if isinstance(c, type) and hasattr(c, "_th")]:
  for s0 in (1, -1):
    for s1 in (1, -1):
      b = types.SimpleNamespace(params_=(s0 * .5, s1 * .5, 100., 101., 1., 1., 0., 0.))
      d = decision.AlmostNotABeatDecisor().decide_beat(0, np.arange(3), {}, b, (100., 1., 1.))
      assert d, (s0, s1)
'''),
dict(id="s11_second_limit", property="C11",
     needs="a number of filters together with more than two frequency limits",
     breaks="the filters are spread up to the second limit instead of the last one",
     edits=[("sample/psycho.py", "freq_transform[0](flim[-1]),\n                                         n_filters + 2))", "freq_transform[0](flim[1]),\n                                         n_filters + 2))")],
     demo='''
import numpy as np
from sample import psycho
f = np.linspace(0, 8000, 129)
_, a = psycho.mel_triangular_filterbank(f, n_filters=5, flim=(100, 7000))
_, b = psycho.mel_triangular_filterbank(f, n_filters=5, flim=(100, 500, 2000, 7000))
np.testing.assert_allclose(a, b)
'''),
dict(id="s10_zwicker_in_place", property="C10",
     needs="the Zwicker scale, with the result stored in the array of the frequencies",
     breaks="one of the two terms is computed from a partial result",
     edits=[("sample/psycho.py", '''  # 13.0 * arctan(7.6e-4 * f)
  tmp = np.empty_like(out)
  np.multiply(7.6e-4, f, out=tmp)
  np.arctan(tmp, out=tmp)
  np.multiply(13.0, tmp, out=tmp)
  # 3.5 * arctan((f / 7500.0)^2)
  np.true_divide(f, 7500.0, out=out)
  np.square(out, out=out)
  np.arctan(out, out=out)
  np.multiply(3.5, out, out=out)
''', '''  # 3.5 * arctan((f / 7500.0)^2)
  np.true_divide(f, 7500.0, out=out)
  np.square(out, out=out)
  np.arctan(out, out=out)
  np.multiply(3.5, out, out=out)
  # 13.0 * arctan(7.6e-4 * f)
  tmp = np.empty_like(out)
  np.multiply(7.6e-4, f, out=tmp)
  np.arctan(tmp, out=tmp)
  np.multiply(13.0, tmp, out=tmp)
''')],
     demo='''
import numpy as np
from sample import psycho
f = np.array([20., 440., 8000.])
a = psycho.hz2bark(f, mode="zwicker")
psycho.hz2bark(f, mode="zwicker", out=f)
np.testing.assert_allclose(a, f)
'''),
dict(id="s14_principal_arctan", property="C14",
     needs="two partials whose phases differ by more than half a turn",
     breaks="the initial phase of the beat is off by half a turn: the sound changes its sign",
     edits=[("sample/beatsdrop/__init__.py", "np2pg.arctan2.op(y0, x0)", "np2pg.arctan.op(np2pg.true_divide.op(y0, x0))")],
     demo='''
import numpy as np
from sample import beatsdrop
t = np.arange(44100) / 44100
for p0, p1 in ((.2, 1.), (0., 5.), (6., .5)):
  b = beatsdrop.Beat(a0=.6, a1=.3, f0=200, f1=203, p0=p0, p1=p1)
  e = .6 * np.cos(400 * np.pi * t + p0) + .3 * np.cos(406 * np.pi * t + p1)
  assert np.max(np.abs(b.x(t) - e)) < 1e-2, (p0, p1)
'''),
dict(id="s19_sum_before_mute", property="C19",
     needs="sounds that are made only of the beat",
     breaks="the third partial is silenced after the normalization: the amplitudes do not add up to the configured one",
     edits=[("sample/evaluation/random.py", '''    if self.onlybeat:
      a[-1] = 0
    np.multiply(a, self.sine_amp / np.sum(a), out=a)
''', '''    np.multiply(a, self.sine_amp / np.sum(a), out=a)
    if self.onlybeat:
      a[-1] = 0
''')],
     demo='''
import numpy as np
from sample.evaluation import random
for only in (False, True):
  g = random.BeatsGenerator(seed=3, onlybeat=only)
  a = g.amps()
  assert abs(np.sum(a) - g.sine_amp) < 1e-9 and (a[-1] == 0) == only, a
'''),
dict(id="s21_falsy_argument", property="C21",
     needs="an argument which is explicitly false, zero, or empty",
     breaks="the explicit value is replaced by the default one",
     edits=[("sample/utils/__init__.py", "    d[k] = d.get(k, v)\n", "    d[k] = d.get(k) or v\n")],
     demo='''
from sample import utils
for v in (False, 0, "", None, (), 1):
  assert utils.default_kws({"a": v}, a=3, b=4) == {"a": v, "b": 4}, v
'''),
dict(id="s30_single_amplitude", property="C30",
     needs="the evaluation of the FFT size, with a sound in which only one mode is found",
     breaks="the amplitude is not divided between the two partials in the results",
     edits=[("scripts/beatsdrop/evaluation.py", "a_hat = _rep(a_hat / 2)", "a_hat = _rep(a_hat)")],
     demo=EVAL + '''
import evaluation
with evaluation.test_case_context(0, onlybeat=True) as ((x, fs, _), _t):
  pass
class Found:
  amps_, freqs_, decays_ = np.array([.5]), np.array([300.]), np.array([.2])
  sinusoidal = types.SimpleNamespace(tracks_=[0])
  def set_params(self, **k):
    return self
  def fit(self, *a, **k):
    return self
evaluation.sklearn = types.SimpleNamespace(base=types.SimpleNamespace(clone=lambda m: Found()))
r = evaluation.test_case_fft(0, n=2048)
assert (r.a0_hat, r.a1_hat) == (.25, .25), r
'''),
dict(id="s33_axis_steps", property="C33",
     needs="a number of cases for which the ticks of the image are not evenly spaced",
     breaks="the strides that are written under the image are not those of the columns",
     edits=[("scripts/cim22/performance.py", '''  xticks_p = xticks / (args.n_cases - 1)
''', "")],
     demo=EVAL + '''
import tempfile
import performance
from matplotlib import pyplot as plt
for n in (3, 4, 6, 11, 14, 16):
  with tempfile.TemporaryDirectory() as d:
    shown = {}
    performance.run_benchmarks = lambda data, args: [data[k].append(v) for s in range(n) for t in range(n) for j, m in enumerate(performance.convolutions) for k, v in dict(method=m, stride=s, duration=1 + t, method_i=j, stride_i=s, duration_i=t, timeit=1. + j + s + t).items()]
    save = plt.savefig
    def savefig(fname, **k):
      shown.update(zip(plt.xticks()[0], [l.get_text() for l in plt.xticks()[1]]))
    performance.plt.savefig = savefig
    performance.ArgParser.custom_parse_args = lambda self, argv: self.parse_args(argv)
    try:
      with contextlib.suppress(SystemExit):
        performance.main("--output", os.path.join(d, "a.csv"), "--image-output", os.path.join(d, "a.png"), "-n", "1", "-c", str(n))
    finally:
      performance.plt.savefig = save
    v = performance.logspace(0, .01, n, offset=1)
    assert shown
    for i, l in shown.items():
      assert l == f"{v[int(i)] * 1000:.1f}", (n, i, l, v)
    plt.close("all")
'''),
dict(id="s05_stale_storage", property="C05",
     needs="a storage which is disabled after an analysis that has used it",
     breaks="intermediate results of the previous sound are still there",
     edits=[("sample/utils/learn.py", '''    if hasattr(self, "cache_"):
      del self.cache_
''', '''    if self.save and hasattr(self, "cache_"):
      del self.cache_
''')],
     demo='''
import numpy as np
import sample
t = np.arange(8000) / 8000
m = sample.SAMPLE(sinusoidal__tracker__fs=8000, sinusoidal__intermediate__save=True)
m.fit(np.exp(-3 * t) * np.cos(2 * np.pi * 440 * t))
assert m.sinusoidal.intermediate.get_state()
m.set_params(sinusoidal__intermediate__save=False)
m.fit(np.exp(-3 * t) * np.cos(2 * np.pi * 880 * t))
assert not m.sinusoidal.intermediate.get_state()
'''),
dict(id="s18_overlap_of_fft", property="C18",
     needs="a window which is shorter than the FFT",
     breaks="the overlap is computed from the size of the FFT instead of that of the window",
     edits=[("sample/evaluation/metrics.py", "  noverlap = int(olap * np.size(w))\n", "  noverlap = min(int(olap * n), np.size(w) - 1)\n")],
     demo='''
import numpy as np
from scipy import signal
from sample.evaluation import metrics
r = np.random.default_rng(0)
x, y = r.normal(size=(2, 500))
l = metrics.lin_log_spectral_loss(x, y, n=64, wsize=40, olap=.5, floor_db=-60)
w = signal.get_window("hamming", 40)
a, b = (np.abs(signal.stft(v, window=w, nperseg=40, nfft=64, noverlap=20)[2]) for v in (x, y))
q = lambda v: 20 * np.log10(np.maximum(v, 1e-3))
np.testing.assert_allclose(l, np.sum(np.abs(a - b)) + np.sum(np.abs(q(a) - q(b))) / 60)
'''),
dict(id="s17_state_overrides", property="C17",
     needs="a previous state together with explicit starting points",
     breaks="the explicit starting points are replaced by those of the state",
     edits=[("sample/optimize.py", 'if state is not None and "x0" not in kwargs and "y0" not in kwargs:', 'if state is not None and ("x0" not in kwargs or "y0" not in kwargs):')],
     demo='''
import types
import numpy as np
from sample import optimize
import sample
got = {}
def gp(f, dims, **k):
  got.update(k)
  return types.SimpleNamespace(x=[10])
optimize.skopt = types.SimpleNamespace(gp_minimize=gp)
t = np.arange(8000) / 8000
o = optimize.SAMPLEOptimizer(sinusoidal__log_n=(9, 11))
s = types.SimpleNamespace(x_iters=[[9]], func_vals=[1.])
o.gp_minimize(np.exp(-3 * t) * np.cos(2 * np.pi * 440 * t), fs=8000, state=s, x0=[[11]])
assert got == {"x0": [[11]]}, got
'''),
]
for s in SEEDS:
  if "faketk" in s["demo"]:
    s.setdefault("files", ["faketk.py"])

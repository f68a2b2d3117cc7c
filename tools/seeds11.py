exec(open("/verif/tools/seeds9.py").read().split("SEEDS = [")[0])
EVAL = '''
import contextlib, io, os, sys, types
import numpy as np, pandas as pd
sys.path.insert(0, os.path.join(os.getcwd(), "scripts", "beatsdrop"))
sys.path.insert(0, os.path.join(os.getcwd(), "scripts", "cim22"))
import matplotlib
matplotlib.use("Agg")
'''
SEEDS = [
dict(id="s33_half_matrix", property="C33",
     needs="the Bayesian approach, and a pair of populations whose decision is in the other half of the matrix, and is 'larger'",
     breaks="the report says that an error is larger when it has been found smaller",
     edits=[("scripts/beatsdrop/evaluation.py", '''        if decision == "smaller":
          decision = "larger"
        elif decision == "larger":
          decision = "smaller"
''', '''        if decision == "smaller":
          decision = "larger"
''')],
     demo=EVAL + '''
import evaluation
names = [f"{k}{i}_{m}_ar" for k in "fad" for i in range(2) for m in ("dbr", "br")]
def texts(order):
  dm = pd.DataFrame(np.nan, index=order, columns=order, dtype=object)
  for i, a in enumerate(order):
    for b in order[i + 1:]:
      # an error is larger if it is of the baseline
      dm.loc[a, b] = "equal" if a[-6:] == b[-6:] else "smaller" if "_dbr_" in a else "larger"
  df = pd.DataFrame({"median": .1, "CI": [[0, 1]] * len(order), "ci_lower": 0., "ci_upper": 1.}, index=order)
  rr = types.SimpleNamespace(decision_matrix=dm, rankdf=df, cd=None)
  evaluation.autorank.latex_report = lambda *a, **k: print("a\\nb\\nc")
  with contextlib.redirect_stdout(io.StringIO()) as s:
    evaluation.print_report(rr)
  return s.getvalue()
a = texts(names)
b = texts(names[::-1])
c = texts(names[1::2] + names[::2])
assert a == b == c
'''),
dict(id="s33_neg_ticks", property="C33",
     needs="a benchmark in which the method is several times slower than the others, so that there is more than one tick below one",
     breaks="labels of the slow-downs on the colorbar are in the reverse order",
     edits=[("scripts/cim22/performance.py", 'map(lambda s: f"${bs}nicefrac{{1}}{{{s}}}$", tick_labels[::-1]))', 'map(lambda s: f"${bs}nicefrac{{1}}{{{s}}}$", tick_labels))')],
     demo=EVAL + '''
import performance, re
im, bar = performance.log_speedup_imshow(np.array([[1 / 16, 1 / 4], [1., 2.]]))
t = {round(float(p), 6): l.get_text() for p, l in zip(bar.get_ticks(), bar.ax.get_yticklabels())}
x = sorted(p for p in t if p < 0)
v = [int(re.findall("[{]([0-9]+)[}]", t[p])[-1]) for p in x]
assert v == sorted(v, reverse=True) and len(v) > 1, (x, v)
'''),
dict(id="s33_speedup_all", property="C33",
     needs="a method which is faster than all the others, for some filter",
     breaks="the method takes part in the choice of the best one: the speed-up is never greater than one",
     edits=[("scripts/cim22/performance.py", "      (times_matrix(df, k, args) for k in convolutions if k != target))\n", "      (times_matrix(df, k, args) for k in convolutions))\n")],
     demo=EVAL + '''
import performance
rows = []
for k in performance.convolutions:
  for s in range(2):
    for d in range(2):
      rows.append(dict(method=k, stride_i=s, duration_i=d, stride=1., duration=1., timeit=1. if k == "strided" else 3.))
y = performance.compute_speedup(pd.DataFrame(rows), types.SimpleNamespace(n_cases=2))
assert np.allclose(y, 3), y
'''),
dict(id="s25_resynth_peak", property="C25",
     needs="an analysis, then a new file or region, then playing or exporting the resynthesis of it, whose peak is above one",
     breaks="the resynthesis computed for playing or exporting is not clipped",
     edits=[("sample/widgets/analysis.py", '''        self.audio_resynth_x = np.clip(
            self.sample_object.predict(np.arange(x.size) / self.audio_sr,), -1,
            +1)
''', '''        self.audio_resynth_x = self.sample_object.predict(
            np.arange(x.size) / self.audio_sr)
''')],
     demo=GUI + '''
with faketk.session() as g, tempfile.TemporaryDirectory() as d:
  r, nb = book(d)
  t = audioload.AudioLoadTab(nb)
  a = analysis.AnalysisTab(nb)
  load(g, d, t)
  nb.sample_object = types.SimpleNamespace(predict=lambda t: 3 * np.cos(t))
  nb.audio_resynth_x = None
  x = a._get_audio(True)
  assert np.max(np.abs(x)) <= 1, np.max(np.abs(x))
'''),
dict(id="s26_dir_relative", property="C26",
     needs="the command-line option for the directory of the user files, with a relative path",
     breaks="a relative directory is looked for in the home directory",
     edits=[("sample/gui.py", '"persistent_dir": userfiles.UserDir(args.dir),', '"persistent_dir": userfiles.UserDir(args.dir, in_home=True),')],
     demo='''
import os, tempfile, argparse
import faketk
from sample import gui
from sample.widgets import main
got = []
class Root:
  def mainloop(self):
    pass
def fake(**kw):
  got.append(kw["gui_kwargs"]["persistent_dir"].path)
  return Root()
main.main = fake
gui.launch(argparse.Namespace(log_level="INFO", splash_time=0, dir=os.path.join("some", "where")))
assert os.path.abspath(got[0]) == os.path.abspath(os.path.join("some", "where")), got
'''),
dict(id="s10_alias_bark", property="C10",
     needs="the conversion from Bark with the input itself as the output array",
     breaks="the input is overwritten before its second use",
     edits=[("sample/psycho.py", '''  tmp = np.empty_like(out)
  np.add(0.53, b, out=tmp)
  # (0.53 + b) / (26.28 - b) * 1960.0
  np.subtract(26.28, b, out=out)
''', '''  tmp = np.empty_like(out)
  # (0.53 + b) / (26.28 - b) * 1960.0
  np.subtract(26.28, b, out=out)
  np.add(0.53, b, out=tmp)
''')],
     demo='''
import numpy as np
from sample import psycho
b = np.array([1., 10.])
y = psycho.bark2hz(b)
psycho.bark2hz(b, out=b)
assert np.allclose(b, y)
'''),
dict(id="s24_stuck_side", property="C24",
     needs="a press in the plot, a release outside of it, then a selection at the other edge",
     breaks="the edge of an abandoned selection is moved by the next one",
     edits=[("sample/widgets/audioload.py", '''        logging.debug("Release aborted: toolbar on or outside of the plot")
        self._trim_side = None
''', '''        logging.debug("Release aborted: toolbar on or outside of the plot")
''')],
     demo=GUI + '''
with faketk.session() as g, tempfile.TemporaryDirectory() as d:
  r, nb = book(d)
  t = audioload.AudioLoadTab(nb)
  load(g, d, t, n=1000)
  E = lambda x: types.SimpleNamespace(xdata=x, ydata=0., button=1)
  t.set_trim(0, start=True); t.set_trim(1000, start=False)
  t.manual_trim_cbk_press(E(.1)); t.manual_trim_cbk_release(E(None))
  t.manual_trim_cbk_press(E(.9)); t.manual_trim_cbk_release(E(.9))
  assert (nb.audio_trim_start, nb.audio_trim_stop) == (0, 900), (nb.audio_trim_start, nb.audio_trim_stop)
'''),
dict(id="s17_progress_reuse", property="C17",
     needs="a progress callback that is used for a second optimization after a reset",
     breaks="the callback can not be used again after a reset",
     edits=[("sample/optimize.py", '''      self.tqdm.close()
    self.i = None
    self.tqdm = None
''', '''      self.tqdm.close()
    self.tqdm = None
''')],
     demo='''
import types
from sample import optimize
opt = optimize.SAMPLEOptimizer(a=(0., 1.))
cb = optimize.TqdmCallback(opt, 2)
r = types.SimpleNamespace(x=[.5], fun=1.)
cb(r); cb(r)
cb.reset()
assert not cb.started
cb(r)
assert cb.i == 1
cb.reset()
'''),
dict(id="s16_swapped_phases", property="C16",
     needs="a beat whose partials have different amplitudes or decays and whose frequencies have been found in the wrong order, with different phases",
     breaks="frequencies are exchanged between the partials without their phases",
     edits=[("sample/beatsdrop/regression.py", "              *self.params_[7:5:-1],  # p1 p0\n", "              *self.params_[6:8],  # p0 p1\n")],
     demo='''
import numpy as np
from scipy import optimize
from sample import beatsdrop as bd
from sample.beatsdrop import regression
true = np.array([.5, .2, 440., 437., .8, .5, .0, 1.3])
wrong = true[[0, 1, 3, 2, 4, 5, 7, 6]]
t = np.linspace(0, 1.5, 400)
am, fm = bd.ModalBeat(*true).compute(t, ("am", "fm"))
a = 20 * np.log10(am)
f = fm / (2 * np.pi)
def init(t, a, f, res, model):
  return wrong
def bounds(t, a, f, p, model):
  return tuple(wrong - 9e-9), tuple(wrong + 9e-9)
m = regression.DualBeatRegression(fs=400, params_init=init, bounds=bounds, freq_clip=None).fit(t, a, f, max_nfev=1)
x = bd.ModalBeat(*true).compute(t, "x")
y = m.predict(t)[0]
assert np.max(np.abs(x - y)) < 1e-3, np.max(np.abs(x - y))
'''),
dict(id="s21_stack_level", property="C21",
     needs="a deprecated argument, and filters that show the warnings of one module only",
     breaks="deprecation warnings point at the caller of the caller",
     edits=[("sample/utils/__init__.py", "                SAMPLEDeprecationWarning, 2)\n", "                SAMPLEDeprecationWarning, 3)\n")],
     demo='''
import warnings
from sample import utils
@utils.deprecated_argument("old", "new")
def f(new=None):
  return new
def g():
  return f(old=3)  # here
with warnings.catch_warnings(record=True) as w:
  warnings.simplefilter("always")
  assert g() == 3
line = open(__file__).read().splitlines()[w[0].lineno - 1]
assert "# here" in line, line
'''),
dict(id="s26_queue_after", property="C26",
     needs="a window which is closed when the widgets can not be destroyed any more",
     breaks="the launcher is told only after the window has been destroyed: a failure there leaves it without an answer",
     edits=[("sample/widgets/main.py", '''    if self.reload_queue is not None:
      self.reload_queue.put(self.should_reload)
    logging.debug("Destroying root")
    utils.get_root(self).destroy()
    logging.debug("Closing pygame")
    audio.TempAudio.close_pygame()
''', '''    logging.debug("Destroying root")
    utils.get_root(self).destroy()
    logging.debug("Closing pygame")
    audio.TempAudio.close_pygame()
    if self.should_reload and self.reload_queue is not None:
      self.reload_queue.put(self.should_reload)
''')],
     demo='''
import os, types
import faketk
from sample.widgets import main, audio, utils
got = []
q = types.SimpleNamespace(put=got.append)
main.os = types.SimpleNamespace(kill=lambda *a: got.append("kill"), getpid=os.getpid)
main.audio = types.SimpleNamespace(TempAudio=types.SimpleNamespace(close_pygame=lambda: None))
main.utils = types.SimpleNamespace(get_root=lambda s: types.SimpleNamespace(destroy=lambda: None))
main.SAMPLERoot.on_closing(types.SimpleNamespace(reload_queue=q, should_reload=False))
assert got == [False, "kill"], got
'''),
]
for s in SEEDS:
  if "faketk" in s["demo"]:
    s.setdefault("files", ["faketk.py"])

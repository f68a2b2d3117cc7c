EVAL = '''
import importlib.util, logging, os, sys, tempfile
from unittest import mock
sys.argv = ["x"]
spec = importlib.util.spec_from_file_location("ev", "scripts/beatsdrop/evaluation.py")
ev = importlib.util.module_from_spec(spec); spec.loader.exec_module(ev)
logging.disable(logging.CRITICAL)
ran = []
class Stop(BaseException): pass
class Pool:
  stop = None
  def __init__(self, *a, **k): pass
  def __enter__(self): return self
  def __exit__(self, *a): pass
  def imap_unordered(self, f, it, *a):
    for n, i in enumerate(it):
      if n == self.stop: raise Stop()
      yield f(i)
def test(seed, wav_path=None, **kw):
  ran.append(seed)
  if wav_path is not None:
    open(wav_path.format(seed), "w").close()
  return ev.BeatsDROPEvalResult(seed=seed, **{k: seed + 1 for k in ev.beatsdrop_eval_result_fields if k != "seed"})
def run(*argv, stop=None):
  ran.clear()
  Pool.stop = stop
  with mock.patch.object(ev.mp, "Pool", Pool), mock.patch.object(ev, "test_case", test), mock.patch.object(ev, "statistical_tests", lambda a: a):
    try:
      ev.main(*argv, "-l", "CRITICAL")
    except Stop:
      pass
  return list(ran)
os.chdir(tempfile.mkdtemp(prefix="demo_"))
import pandas as pd
'''
MOD = '''
import importlib.util, logging, os, sys, tempfile, io, contextlib
sys.argv = ["x"]
def load(p):
  spec = importlib.util.spec_from_file_location("m", os.path.abspath(p))
  m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
  return m
'''
SEEDS = [
dict(id="s30_ckpt_order", property="C30",
  needs="an interruption after more than ten checkpoints",
  breaks="the most recent checkpoint is found by name order, so the ninth one is resumed instead of the last one",
  edits=[("scripts/beatsdrop/evaluation.py", '''        args.last_checkpoint = max(
            map(lambda s: int(s.rsplit("-", 1)[-1]), args.checkpoints))
''', '''        args.last_checkpoint = int(max(args.checkpoints).rsplit("-", 1)[-1])
''')],
  demo=EVAL + '''
run("-O", "o", "-n", "14", "--checkpoint", "1", stop=12)
again = run("-O", "o", "-n", "14", "--checkpoint", "1")
assert sorted(again) == [12, 13], again
'''),
dict(id="s30_wav_done", property="C30",
  needs="a run with WAV files interrupted after a sound was written but before its result was saved",
  breaks="tests whose sound file exists are not done, so they never get into the results",
  edits=[("scripts/beatsdrop/evaluation.py", '''      return _f(i) or not os.path.exists(args.wav_path.format(i))
''', '''      return not os.path.exists(args.wav_path.format(i))
''')],
  demo=EVAL + '''
run("-O", "o", "-n", "3", "--wav", "w", "--checkpoint", "1", stop=1)
open("w/1.wav", "w").close()
run("-O", "o", "-n", "3", "--wav", "w")
assert sorted(pd.read_csv("o.csv")["seed"]) == [0, 1, 2], pd.read_csv("o.csv")["seed"].tolist()
'''),
dict(id="s31_tag_twice", property="C31",
  needs="a notebook with an erroneous cell formatted twice with error tags",
  breaks="error tags are appended at every run",
  edits=[("scripts/utils/yapf_nbformat.py", '''      if se not in new_src and tag_errors:
''', '''      if tag_errors:
''')],
  demo=MOD + '''
m = load("scripts/utils/yapf_nbformat.py")
import nbformat
os.chdir(tempfile.mkdtemp(prefix="demo_"))
nbformat.write(nbformat.v4.new_notebook(cells=[nbformat.v4.new_code_cell("x = = 1")]), "a.ipynb")
m.format_nb("a.ipynb", tag_errors=True, style="google")
a = open("a.ipynb").read()
m.format_nb("a.ipynb", tag_errors=True, style="google")
assert a == open("a.ipynb").read(), open("a.ipynb").read()
'''),
dict(id="s31_first_error", property="C31",
  needs="a notebook with an erroneous cell before a cell with commands to be formatted",
  breaks="commands of the cells after one that is not Python are left escaped or not formatted",
  edits=[("scripts/utils/yapf_nbformat.py", '''      if se not in new_src and tag_errors:
''', '''      if not tag_errors:
        break
      if se not in new_src:
''')],
  demo=MOD + '''
m = load("scripts/utils/yapf_nbformat.py")
import nbformat
os.chdir(tempfile.mkdtemp(prefix="demo_"))
c = nbformat.v4.new_code_cell
nbformat.write(nbformat.v4.new_notebook(cells=[c("x = ("), c("x=1")]), "a.ipynb")
m.format_nb("a.ipynb", style="google")
assert [i.source for i in nbformat.read("a.ipynb", 4).cells] == ["x = (", "x = 1"]
'''),
dict(id="s31_version_text", property="C31",
  needs="a version number with more than one digit",
  breaks="versions are sorted as text, so 1.9 comes before 1.10",
  edits=[("scripts/utils/make_changelog.py", '''    return -1 if i < j else 1
''', '''    return -1 if str(i) < str(j) else 1
''')],
  demo=MOD + '''
m = load("scripts/utils/make_changelog.py")
os.chdir(tempfile.mkdtemp(prefix="demo_"))
os.makedirs("in")
for v in ("1_9", "1_10", "2_0"):
  open("in/v%s.md" % v, "w").close()
m.main("-I", "in", "-O", "c.rst", "-l", "CRITICAL")
l = [i for i in open("c.rst").read().split("\\n") if "mdinclude" in i]
assert [i.split("/v")[1] for i in l] == ["2_0.md", "1_10.md", "1_9.md"], l
'''),
dict(id="s31_diff_only", property="C31",
  needs="a notebook in which a cell to be formatted comes after a cell that differs only in the last newline",
  breaks="cells that are modified after the first one are not written",
  edits=[("scripts/utils/yapf_nbformat.py", '''        diff.append((i + 1, "".join(d)))
        cell["source"] = new_src
''', '''        if not diff or cell["source"].count("\\n") != new_src.count("\\n"):
          diff.append((i + 1, "".join(d)))
          cell["source"] = new_src
''')],
  demo=MOD + '''
m = load("scripts/utils/yapf_nbformat.py")
import nbformat
os.chdir(tempfile.mkdtemp(prefix="demo_"))
c = nbformat.v4.new_code_cell
nbformat.write(nbformat.v4.new_notebook(cells=[c("y=2"), c("x=1")]), "a.ipynb")
m.format_nb("a.ipynb", style="google")
assert [i.source for i in nbformat.read("a.ipynb", 4).cells] == ["y = 2", "x = 1"]
'''),
dict(id="s32_start_zero", property="C32",
  needs="a region starting at zero seconds",
  breaks="a start at zero is taken as a missing start and moved to the last onset before the end",
  edits=[("scripts/beatsdrop/example.py", '''  i0 = None if args.crop_start is None else int(args.crop_start * args.fs)
''', '''  i0 = int(args.crop_start * args.fs) if args.crop_start else None
''')],
  demo=MOD + '''
m = load("scripts/beatsdrop/example.py")
import numpy as np
os.chdir(tempfile.mkdtemp(prefix="demo_"))
m.dsp.onset_detection = lambda x: np.array([0, 0, 1, 0, 0, 0], dtype=bool)
a = m.ArgParser().parse_args(["-i", "f.wav", "-s", "0"])
a.fs, a.x = 4, np.arange(6.)
m.crop_audio(a)
assert a.x.tolist() == [0, 1], a.x
'''),
dict(id="s32_start_at_onset", property="C32",
  needs="a region that starts exactly at an onset and has no explicit end",
  breaks="the region from an onset to the next one is empty when it starts exactly at the onset",
  edits=[("scripts/beatsdrop/example.py", '''      i1 = min(ons[np.greater(ons, i0)], default=args.x.size)
''', '''      i1 = min(ons[np.greater_equal(ons, i0 + (args.crop_start is None))],
               default=args.x.size)
''')],
  demo=MOD + '''
m = load("scripts/beatsdrop/example.py")
import numpy as np
os.chdir(tempfile.mkdtemp(prefix="demo_"))
m.dsp.onset_detection = lambda x: np.array([0, 0, 1, 0, 1, 0], dtype=bool)
a = m.ArgParser().parse_args(["-i", "f.wav", "-s", "0.5"])
a.fs, a.x = 4, np.arange(6.)
m.crop_audio(a)
assert a.x.tolist() == [2, 3], a.x
'''),
dict(id="s32_negative_peak", property="C32",
  needs="a resynthesis whose largest absolute value is negative",
  breaks="negative peaks are clipped",
  edits=[("scripts/beatsdrop/example.py", '''  y_p = np.abs(y).max()
''', '''  y_p = max(y.max(), 0)
''')],
  demo=MOD + '''
m = load("scripts/beatsdrop/example.py")
import numpy as np
logging.disable(logging.CRITICAL)
from scipy.io import wavfile
os.chdir(tempfile.mkdtemp(prefix="demo_"))
a = m.ArgParser().parse_args(["-i", "f.wav"])
class M:
  def predict(self, t, **k): return np.array([0.5, -2.])
a.fs, a.x, a.model = 4, np.zeros(2), M()
m.resynth_audio(a)
assert np.abs(wavfile.read("f-output.wav")[1]).max() < 1
'''),
dict(id="s32_url_stale_progress", property="C32",
  needs="two phases of progress",
  breaks="the count of the previous phase is kept when a new one starts",
  edits=[("scripts/beatsdrop/example.py", '''      self._current_progress = value
      if self.progressbar is not None:
        self.progressbar.total = maximum
''', '''      self._current_progress = max(value, self._current_progress)
      if self.progressbar is not None:
        self.progressbar.total = maximum
''')],
  demo=MOD + '''
m = load("scripts/beatsdrop/example.py")
import time
class Bar:
  n = total = last_print_n = 0
  def refresh(self): pass
b = Bar()
f = m.ScriptFitArgs(progressbar=b)
f.progress_start(5); f.progress_stop(); f.progress_start(9)
time.sleep(0.5)
f.progress_update()
assert b.n == 1, b.n
'''),
]

exec(open("/verif/tools/seeds9.py").read().split("SEEDS = [")[0])
MOD = '''
import importlib.util, logging, os, sys, tempfile, io, contextlib
sys.argv = ["x"]
def load(p):
  spec = importlib.util.spec_from_file_location("m", os.path.abspath(p))
  m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
  return m
'''
EVAL = open("/verif/tools/seeds12.py").read().split("EVAL = '''")[1].split("'''")[0]
SEEDS = [
dict(id="s30_onset_gaps", property="C30",
     needs="the test of a sound whose track has gaps, because it has been merged",
     breaks="time stamps are counted after the gaps have been removed: the regression is given the wrong times",
     edits=[("scripts/beatsdrop/evaluation.py", '''    track_t = np.arange(len(track["mag"])) / s.sinusoidal.frame_rate
    track_a = np.flip(track["mag"]) + 6
    track_f = np.flip(track["freq"])

    iok = np.isfinite(track_a)
    track_t = track_t[iok]
    track_a = track_a[iok]
    track_f = track_f[iok]
''', '''    track_a = np.flip(track["mag"]) + 6
    track_f = np.flip(track["freq"])
    iok = np.isfinite(track_a)
    track_a = track_a[iok]
    track_f = track_f[iok]
    track_t = np.arange(len(track_a)) / s.sinusoidal.frame_rate
''')],
     demo=EVAL + '''
import evaluation
tr = {"mag": np.linspace(-60, -20, 30), "freq": np.linspace(300, 301, 30), "start_frame": 0}
tr["mag"][12:15] = tr["freq"][12:15] = np.nan
class Found:
  energies_ = np.array([.5])
  sinusoidal = types.SimpleNamespace(tracks_=[tr], frame_rate=100.)
  def fit(self, *a, **k):
    return self
got = []
class Reg:
  params_ = (1., 1., 200., 201., 1., 1., 0., 0.)
  def fit(self, t, a, f):
    got.append(np.array(t))
    return self
evaluation.sklearn = types.SimpleNamespace(base=types.SimpleNamespace(clone=lambda m: Found()))
reg = evaluation.beatsdrop.regression
reg.BeatRegression = reg.DualBeatRegression = Reg
evaluation.test_case(0)
e = np.arange(30)[np.isfinite(tr["mag"][::-1])] / 100
assert len(got) == 2 and all(np.allclose(t, e) for t in got), got
'''),
dict(id="s30_beat_frequency", property="C30",
     needs="the test of the decision, with a track nearer to the first partial of the beat than the one of the beat",
     breaks="the decision reported for the beat is that of another track",
     edits=[("scripts/beatsdrop/evaluation.py", '"beat": (ground_truth["f0"] + ground_truth["f1"]) / 2,', '"beat": ground_truth["f0"] + ground_truth["f1"] / 2,')],
     demo=EVAL + '''
import evaluation
from sample.evaluation import random
_, _, (f, _, _, _) = random.BeatsGenerator(seed=0, onlybeat=False).audio()
at = [(f[0] + f[1]) / 2, f[2], f[0] + f[1] / 2, f[1] + f[0] / 2]
class Found:
  def __init__(self, **k):
    self.sinusoidal = types.SimpleNamespace(tracks_=[{"freq": np.full(9, x)} for x in at])
    self.beat_decisor = types.SimpleNamespace(intermediate={"decision": [True, False, False, False]})
  def fit(self, *a, **k):
    return self
evaluation.beatsdrop.sample.SAMPLEBeatsDROP = Found
r = evaluation.test_case_decision(0)
assert (r.beat, r.single) == (True, False), r
'''),
dict(id="s22_fft_below", property="C22",
     needs="an FFT size which is typed and is not a power of two",
     breaks="the size is rounded down: the window is cut to it, too",
     edits=[("sample/widgets/settings.py", "return 2**(custom_positive_int(x) - 1).bit_length()", "return 2**(custom_positive_int(x).bit_length() - 1)")],
     demo=GUI + '''
assert [settings.next_power_of_2(str(i)) for i in (1, 2, 3, 5, 1024, 1025)] == [1, 2, 4, 8, 1024, 2048]
'''),
dict(id="s32_longest_gap", property="C32",
     needs="a sound with more than one onset, the longest region being the last",
     breaks="the end of the sound is not a limit of the regions: the last one is never chosen",
     edits=[("scripts/beatsdrop/example.py", "ons[np.argmax(np.diff(ons))]", "ons[np.argmax(np.diff(ons[:-1]))] if len(ons) > 2 else ons[0]")],
     demo=MOD + '''
m = load("scripts/beatsdrop/example.py")
import numpy as np
os.chdir(tempfile.mkdtemp(prefix="demo_"))
m.dsp.onset_detection = lambda x: np.array([0, 1, 0, 1, 0, 0, 0, 0], dtype=bool)
a = m.ArgParser().parse_args(["-i", "f.wav"])
a.fs, a.x = 4, np.arange(8.)
m.crop_audio(a)
assert a.x.tolist() == [3, 4, 5, 6, 7], a.x
'''),
dict(id="s20_params_first_level", property="C20",
     needs="a storage at an index, already filled further on",
     breaks="storing at an index that is already there inserts a new value instead",
     edits=[("sample/utils/learn.py", "        self.cache_[key][index] = value\n", "        if self.cache_[key][index] is None:\n          self.cache_[key][index] = value\n        else:\n          self.cache_[key].insert(index, value)\n")],
     demo='''
from sample.utils import learn
s = learn.OptionalStorage(save=True)
for i, v in ((2, "a"), (0, "b"), (2, "c"), (1, "d"), (0, "e")):
  s.append("k", v, index=i)
assert s["k"] == ["e", "d", "c"], s["k"]
'''),
dict(id="s29_half_negative", property="C29",
     needs="a size below half of that of the FFT",
     breaks="the autocorrelogram has as many samples as the FFT, not as requested",
     edits=[("sample/utils/dsp.py", "(a, n=nfft)[:n]", "(a, n=nfft)[:max(n, nfft // 2)]")],
     demo='''
import numpy as np
from sample.utils import dsp
x = np.random.default_rng(0).normal(size=16)
for n in (3, 5, 8, 12, 16):
  assert dsp.fft2autocorrelogram(np.fft.rfft(x), n=n, nfft=16).size == n, n
'''),
]
for s in SEEDS:
  if "faketk" in s["demo"]:
    s.setdefault("files", ["faketk.py"])

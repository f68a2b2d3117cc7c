"""C04: from tracks to modal parameters"""
import itertools
import math

import numpy as np
import vp
from sample import SAMPLE
from sample.sample import additive_synth
from sample.sms import mm
from sklearn import base

NAN = math.nan


class ScriptedModel(mm.ModalModel):
  """Analysis whose tracks are decided by the harness"""
  script = ()

  def fit(self, x, y=None, **kwargs):
    kwargs.pop("_fit_args", None)
    self.set_params(**kwargs)
    self.found_ = [{k: (v if k == "start_frame" else np.array(v, dtype=float))
                    for k, v in t.items()} for t in type(self).script]
    return self

  @property
  def tracks_(self):
    return self.found_


SEEN = []


class LineThrough(base.BaseEstimator):
  """Exact line through the first and last points; logs what it is given"""

  def fit(self, x, y):
    x, y = np.asarray(x), np.asarray(y)
    SEEN.append((x.copy(), y.copy()))
    x = x[:, 0]
    self.slope = (y[-1] - y[0]) / (x[-1] - x[0])
    self.level = y[0] - self.slope * x[0]
    return self


DB2 = 20 * math.log10(2)
# magnitude as a function of the frame index within the track
SLOPES = {"d": -2.0, "e": -0.5, "f": 0.0}


def make_track(start, pattern, slope, f0, reverse):
  """pattern: 1 for a finite frame, 0 for a gap"""
  k = SLOPES[slope] * (-1 if reverse else 1)
  t = {"start_frame": start, "freq": [], "mag": [], "phase": []}
  for i, p in enumerate(pattern):
    t["freq"].append(f0 + i * 3 if p else NAN)
    t["mag"].append(-10 + k * i if p else NAN)
    t["phase"].append(i / 7 if p else NAN)
  return t


def patterns(top):
  for n in range(2, top + 1):
    for mid in itertools.product((1, 0), repeat=n - 2):
      yield [1] + list(mid) + [1]


GEO = [(1000, 100, 64), (1000, 100, 65), (8000, 64, 256), (48, 7, 10)]
REDUCE = {"mean": np.mean, "max": np.max, "median": np.median}


def gen_single(tier):
  for start in (0, 1, 5):
    for p in patterns(5 if tier == "quick" else 7):
      for s in SLOPES:
        for g in range(len(GEO)):
          for padded, reverse in itertools.product((False, True), repeat=2):
            yield {"tracks": [[start, p, s, 100.0]], "geo": g,
                   "padded": padded, "reverse": reverse, "reduce": "mean"}


def gen_multi(tier):
  kinds = [[s, p, k] for s in (0, 2) for p in ([1, 1], [1, 0, 1, 1])
           for k in "df"]
  for n in range(0, 4 if tier == "quick" else 5):
    for c in itertools.product(kinds, repeat=n):
      for padded, reverse in ((False, False), (True, True)):
        yield {"tracks": [[s, p, k, 100.0 * (i + 1)]
                          for i, (s, p, k) in enumerate(c)],
               "geo": n % len(GEO), "padded": padded, "reverse": reverse,
               "reduce": ("mean", "max", "median")[n % 3]}


def run(case, st):
  fs, h, w = GEO[case["geo"]]
  n_x = 40 * h + 3
  padded, reverse = case["padded"], case["reverse"]
  script = [make_track(s, p, k, f, reverse) for s, p, k, f in case["tracks"]]
  ScriptedModel.script = script
  del SEEN[:]
  s = SAMPLE(
      sinusoidal=ScriptedModel(w=np.ones(w), n=512, padded=padded,
                               tracker__fs=fs, tracker__h=h,
                               tracker__reverse=reverse),
      regressor=LineThrough(), regressor_k="slope", regressor_q="level",
      freq_reduce=REDUCE[case["reduce"]])
  x = np.zeros(n_x)
  vp.check(s.fit(x) is s, "fit does not return the model")
  vp.check(len(SEEN) == len(script), "%d regressions for %d tracks",
           len(SEEN), len(script))
  cols = []
  for t, u in zip(script, s.sinusoidal.tracks_):
    for k, v in t.items():
      vp.check_close(u[k], v, "%s of a track of the fitted model" % k)
  for t, (rx, ry) in zip(script, SEEN):
    idx = [i for i, m in enumerate(t["mag"]) if m == m]
    time = []
    for i in idx:
      c = (t["start_frame"] + i) * h / fs
      if not padded:
        c += 0.5 * w / fs  # windows are centered half a window later
      time.append(n_x / fs - c if reverse else c)
    mag = [t["mag"][i] + DB2 for i in idx]
    vp.check_close(rx, np.reshape(time, (-1, 1)), "time axis of a track")
    vp.check_close(ry, mag, "magnitudes of a track")
    k = (mag[-1] - mag[0]) / (time[-1] - time[0])
    q = mag[0] - k * time[0]
    if k == 0:
      continue  # no finite decay: the mode is dropped
    cols.append((REDUCE[case["reduce"]]([t["freq"][i] for i in idx]),
                 -40 * math.log10(math.e) / k, 10**(q / 20)))
  exp = np.array(cols).T if cols else np.empty((3, 0))
  vp.check_close(s.param_matrix_, exp, "parameter matrix", 1e-6)
  vp.check_close(s.freqs_, exp[0], "freqs", 1e-6)
  vp.check_close(s.decays_, exp[1], "decays", 1e-6)
  vp.check_close(s.amps_, exp[2], "amps", 1e-6)
  vp.check_close(s.energies_, exp[1] * exp[2]**2 / 4, "energies", 1e-6)
  key = np.round(exp, 6).tolist()
  if cols:
    # parameters can be edited in place, one row at a time
    for i, name in enumerate(("freqs_", "decays_", "amps_")):
      new = np.arange(exp.shape[1]) + 10. * i + 1
      setattr(s, name, new)
      exp[i] = new
      vp.check_close(s.param_matrix_, exp, "after setting " + name, 1e-6)
  return key


# --- Whole pipeline on synthetic modal sounds --------------------------------
FREQS = [(500.,), (1500.,), (700., 1900.), (700., 1900., 3100.),
         (430., 1210., 2770.)]


def gen_e2e(tier):
  for rev, pad in itertools.product((False, True), repeat=2):
    for fi in range(len(FREQS)):
      for d in (.25, .6) if tier == "quick" else (.2, .25, .4, .6):
        for a in (.08, .7):
          for h in (100,) if tier == "quick" else (64, 100, 128):
            yield [rev, pad, fi, d, a, h]


def run_e2e(case, st):
  rev, pad, fi, d, a, h = case
  fs = 8000
  f = np.array(FREQS[fi])
  n = f.size
  dd = np.array([d, 1.3 * d, .8 * d][:n])
  aa = np.array([a, .7 * a, .5 * a][:n])
  t = np.arange(fs) / fs
  x = np.sum([
      ai * np.exp(-2 * t / di) * np.cos(2 * np.pi * fi_ * t)
      for fi_, di, ai in zip(f, dd, aa)
  ], axis=0)
  s = SAMPLE(sinusoidal__tracker__fs=fs,
             sinusoidal__tracker__h=h,
             sinusoidal__w=np.hanning(512),
             sinusoidal__n=1024,
             sinusoidal__padded=pad,
             sinusoidal__tracker__reverse=rev,
             sinusoidal__tracker__peak_threshold=-60,
             sinusoidal__tracker__min_sine_dur=.1).fit(x)
  o = s.mode_argsort_("amps")[:n]
  vp.check(len(o) == n, "only %d modes found", len(o))
  o = sorted(o, key=lambda i: s.freqs_[i])
  vp.check_close(s.freqs_[o], f, "frequencies", 1e-3)
  vp.check_close(s.decays_[o], dd, "decays", .03)
  vp.check_close(s.amps_[o], aa, "amplitudes", .09 if pad else .02)
  y = s.predict(t, n_modes=n, order="amps")
  # (the very first milliseconds depend on the padded onset)
  rms = np.sqrt(np.mean((y - x)[400:]**2) / np.mean(x[400:]**2))
  vp.check(np.isfinite(rms), "resynthesis is not finite")
  return (round(rms, 1), s.freqs_.size)


if __name__ == "__main__":
  vp.main(
      "C04", [("single", gen_single, run, {"chunk": 32}),
              ("multi", gen_multi, run, {"chunk": 32}),
              ("recovery", gen_e2e, run_e2e, {"chunk": 2})],
      level="exploration",
      rule="every track layout (start frame, every gap pattern, slope, number "
      "of tracks) x geometry x padding x reversal is pushed through fit with a "
      "scripted analysis and an exact regressor, time axes / magnitudes / "
      "parameters compared with closed forms; plus a complete grid of "
      "synthetic modal sounds through the whole pipeline",
      bounds={
          "quick": "1 track of <=5 frames: all gap patterns; <=3 tracks of 8 "
                   "kinds; 80 synthetic sounds",
          "thorough": "1 track of <=7 frames; <=4 tracks; 480 sounds"
      },
      assumptions=["recovery tolerances: 0.1% frequency, 3% decay, 2% "
                   "amplitude (9% when padded)"])

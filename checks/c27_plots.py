"""C27: plots show the models they are given"""
import itertools
import math

import matplotlib
import numpy as np
import vp
from c04_params import LineThrough, ScriptedModel, make_track
from c15_beats import BEATS, Scripted
from matplotlib import pyplot as plt
from sample import SAMPLE
from sample import plots
from sample.beatsdrop import decision
from sample.beatsdrop import sample as bds
from sample.utils import dsp
from scipy import signal
from sklearn import base

matplotlib.use("Agg")


class Framed(ScriptedModel):
  """Scripted analysis that stores a number of frames"""
  n_frames = 0

  def fit(self, x, y=None, **kwargs):
    self.intermediate.reset()
    super().fit(x, y, **kwargs)
    for k in range(type(self).n_frames):
      self.intermediate.append("stft", (np.full(9, k), np.zeros(9)))
    return self


# --- Tracks ----------------------------------------------------------------------
GEO = [(1000, 100), (44100, 441)]
SHAPES = [(0, [1, 1]), (0, [1, 0, 1, 1]), (3, [1, 1]), (2, [1, 0, 1])]
STORE = ("no", "yes", "after", "never fitted")


def gen_tracks(tier):
  for n in range(0, 4 if tier == "quick" else 5):
    for c in itertools.product(range(len(SHAPES)), repeat=n):
      for kind in ("model", "sample", "beats"):
        for rev in (False, True):
          for store in STORE[:3]:
            if kind == "model" or n < 3 or store != "after":
              yield [list(c), kind, rev, store, n % 2]


def lines(ax):
  return [(np.array(l.get_data_3d() if hasattr(l, "get_data_3d") else l.
                    get_data(), dtype=float), l.get_linestyle())
          for l in ax.get_lines()]


def run_tracks(case, st):
  c, kind, rev, store, g = case
  fs, h = GEO[g]
  script = [make_track(*SHAPES[k], "d", 100. * (i + 1), rev)
            for i, k in enumerate(c)]
  ends = [t["start_frame"] + len(t["freq"]) for t in script]
  n_frames = max(ends, default=0) + 2
  Framed.script, Framed.n_frames = script, n_frames
  model = Framed(w=np.ones(64), n=128, tracker__fs=fs, tracker__h=h,
                 tracker__reverse=rev, intermediate__save=store == "yes")
  dash = [False] * len(c)
  if kind == "model":
    m = model.fit(np.zeros(9))
  elif kind == "sample":
    m = SAMPLE(sinusoidal=model, regressor=LineThrough(),
               regressor_k="slope", regressor_q="level").fit(np.zeros(9 * h))
  else:
    names = [("beat", "same")[k % 2] for k in c]
    dash = [k == "beat" and store != "no" for k in names]
    Scripted.script = {
        round(float(np.nanmean(np.array(t["freq"], dtype=float)))):
        BEATS[k][0] for t, k in zip(script, names)
    }
    m = bds.SAMPLEBeatsDROP(
        beatsdrop=Scripted(),
        beat_decisor=decision.AlmostNotABeatDecisor(
            intermediate__save=store != "no"),
        sinusoidal=model, regressor=LineThrough(), regressor_k="slope",
        regressor_q="level").fit(np.zeros(9 * h))
  if store == "after":
    model = m if kind == "model" else m.sinusoidal
    model.intermediate.save = True
  top = n_frames if store == "yes" else max(ends, default=0)
  exp = []
  for t in script:
    k = [t["start_frame"] + i for i in range(len(t["freq"]))]
    k = [(top - i if rev else i) * h / fs for i in k]
    exp.append((k, t["freq"], t["mag"]))
  seen = []
  for given in (False, True):
    plt.close("all")
    ax = plt.subplots(1, 2)[1] if given else None
    old = (0, 0)
    if given:  # axes which already show something
      old = (len(c) % 2 + 1, 1)
      for x, k in zip(ax, old):
        for i in range(k):
          x.plot([0, i], [1, 2], color="r")
    r = plots.sine_tracking_2d(m, **({"ax": ax} if given else {}), color="r")
    vp.check(not given or r is ax, "given axes not used")
    for i in range(2):
      ls = lines(r[i])[old[i]:]
      vp.check(len(ls) == len(exp), "%d lines for %d tracks", len(ls),
               len(exp))
      for (d, s), e, b in zip(ls, exp, dash):
        vp.check_close(d, np.array([e[0], e[i + 1]]), "track plotted")
        vp.check(s == ("--" if b else "-"), "style %s, beat: %s", s, b)
      vp.check(all(l.get_color() == "r" for l in r[i].get_lines()),
               "line options not used")
      seen.append(ls)
    vp.check(r[0].get_xlabel() and r[1].get_xlabel() and
             (r[0].get_ylabel(), r[1].get_ylabel()) == ("Hz", "dB"), "labels")
    ax = plt.figure().add_subplot(projection="3d") if given else None
    if given:
      ax.plot([0, 1], [1, 2], [3, 4])
    r = plots.sine_tracking_3d(m, **({"ax": ax} if given else {}))
    vp.check(not given or r is ax, "given axis not used")
    ls = lines(r)[given:]
    vp.check(len(ls) == len(exp), "%d lines for %d tracks", len(ls), len(exp))
    for (d, s), e, b in zip(ls, exp, dash):
      vp.check_close(d, np.array(e), "track plotted in 3D")
      vp.check(s == ("--" if b else "-"), "3D style %s, beat: %s", s, b)
  plt.close("all")
  return repr([(np.round(d, 6).tolist(), s) for ls in seen for d, s in ls])


# --- Time-frequency matrices -----------------------------------------------------
def gen_tf(tier):
  for sh in ((1, 1), (2, 3), (4, 2)):
    for lims in ((0, 1, 0, 1), (0, 2, 10, 500), (1, 3, 0, 22050)):
      for zoom in (None, "x", "y", "both"):
        for given in (False, True):
          for ar in (4 / 3, 2):
            for w in (8, 4):
              yield [list(sh), list(lims), zoom, given, ar, w]


def run_tf(case, st):
  sh, (t0, t1, f0, f1), zoom, given, ar, w = case
  tf = np.arange(sh[0] * sh[1], dtype=float).reshape(sh)
  keep = tf.copy()
  kw = {"tlim": (t0, t1), "flim": (f0, f1), "aspect_ratio": ar, "width": w}
  xl, yl = (t0, t1), (f0, f1)
  if zoom in ("x", "both"):
    kw["xlim"] = xl = (t0, (t0 + t1) / 2)
  if zoom in ("y", "both"):
    kw["ylim"] = yl = (f0 / 2, f1)
  plt.close("all")
  fig, (other, ax) = plt.subplots(1, 2)
  size = fig.get_size_inches().copy()
  if given:
    kw["ax"] = ax
    plt.sca(other)
  else:
    plt.sca(ax)
  r = plots.tf_plot(tf, cmap="gray", **kw)
  vp.check(r is ax, "axes")
  vp.check(not other.images and len(ax.images) == 1, "images")
  im, = ax.images
  vp.check_close(np.array(im.get_array()), keep, "image")
  vp.check(im.origin == "lower", "frequencies upside down")
  vp.check(im.get_cmap().name == "gray", "image options not used")
  vp.check_close(im.get_extent(), (t0, t1, f0, f1), "extent")
  vp.check_close(ax.get_xlim(), xl, "time limits")
  vp.check_close(ax.get_ylim(), yl, "frequency limits")
  a = float(np.squeeze(ax.get_aspect()))
  vp.check_close(a, (xl[1] - xl[0]) / (yl[1] - yl[0]) / ar, "aspect")
  vp.check_close(fig.get_size_inches(), size if given else (ar * w, w),
                 "figure size")
  vp.check(np.array_equal(tf, keep), "matrix modified")
  plt.close("all")
  return repr(case)


# --- Resynthesis -----------------------------------------------------------------
X = {
    "long": np.cos(np.arange(2000) * .3) * np.linspace(1, 0, 2000),
    "short": np.array([.5, -.25, 0., 1., .1, .2]),
}
MODES = {
    "one": [(100.,), (.5,), (1.,)],
    "two": [(100., 220.), (.5, .25), (1., .5)],
    "none": [(), (), ()],
}


def modal(name, fs):
  m = SAMPLE(sinusoidal__tracker__fs=fs)
  m.param_matrix_ = np.array(MODES[name], dtype=float)
  return m


def gen_resynth(tier):
  for n in range(3):
    for names in itertools.permutations(MODES, n):
      for x in X:
        for orig in (True, False):
          if n + orig:
            for fs in (None, 500):
              for floor in (-90, -20, None):
                for where in ("gcf", "fig", "axs", "axs+fig"):
                  for fun in (False, True):
                    if where == "gcf" or (floor == -20 and x == "short"):
                      yield [list(names), x, orig, fs, floor, where, fun]


def run_resynth(case, st):
  names, xn, orig, fs, floor, where, fun = case
  x = X[xn].copy()
  rates = {k: r for k, r in zip(names, (1000, 2000))}
  models = {k: modal(k, rates[k]) for k in names}
  rate = fs or max(rates.values(), default=44100)
  plt.close("all")
  kw, called = {}, []
  n = len(names) + orig
  nper = 64 if xn == "long" else 4
  if where == "gcf":
    fig = plt.gcf()
  elif where == "fig":
    fig = kw["fig"] = plt.figure()
    plt.figure()
  else:
    fig, ax = plt.subplots(1, n + 1)
    kw["axs"] = list(ax)
    plt.figure()
    if where == "axs+fig":
      kw["fig"] = fig
  if fun:
    kw["tf_fun"] = lambda y, fs: (np.array([1., fs]), np.outer(y[:3], [1., 2.]))
  else:
    kw["tf_fun"] = plots._stft4resynthesis(nperseg=nper) if hasattr(  # pylint: disable=W0212
        plots, "_stft4resynthesis") else None
    if kw["tf_fun"] is None:
      kw.pop("tf_fun")
      nper = 1024
  given = {"alpha": .25}
  tf_kw = {"cmap": "gray"}
  f, axs = plots.resynthesis(x, models, fs=fs, original=orig, original_k="O",
                             foreach=lambda *a: called.append(a),
                             db_floor=floor, wav_kws=given, tf_kws=tf_kw,
                             **kw)
  vp.check(f is fig and len(axs) >= n + 1, "figure")
  vp.check(where[:3] != "axs" or all(a is b for a, b in zip(axs, kw["axs"])),
           "given axes")
  vp.check(given == {"alpha": .25} and tf_kw == {"cmap": "gray"},
           "arguments modified")
  t = np.arange(x.size) / rate
  exp = [("O", x)] if orig else []
  for k in names:
    y = np.zeros(x.size)
    for fr, d, a in zip(*MODES[k]):
      y = y + a * np.exp(-2 * t / d) * np.cos(2 * np.pi * fr * t)
    exp.append((k, y))
  ls = axs[0].get_lines()
  vp.check(len(ls) == len(exp) == len(called), "number of sounds")
  texts = [a.get_text() for a in axs[0].get_legend().get_texts()]
  vp.check(texts == [k for k, _ in exp], "legend %s", texts)
  for i, (l, (k, y), c) in enumerate(zip(ls, exp, called)):
    vp.check_close(l.get_xdata(), t, "time axis")
    vp.check_close(l.get_ydata(), y, "sound %s" % k, 1e-7, 1e-9)
    vp.check(l.get_label() == k and l.get_alpha() == .25, "label and options")
    vp.check(c[0] == i and c[1] == k, "callback got %s %s", *c[:2])
    vp.check_close(c[2], y, "sound given to the callback", 1e-7, 1e-9)
    a = axs[i + 1]
    vp.check(a.get_title() == k, "title %s", a.get_title())
    im, = a.images
    if fun:
      fl, e = (1., rate), np.outer(y[:3], [1., 2.])
    else:
      ff, _, e = signal.stft(y, fs=rate, nperseg=nper)
      fl = ff[0], ff[-1]
    if floor is not None:
      e = 20 * np.log10(np.maximum(np.abs(e), 10**(floor / 20)))
    elif np.iscomplexobj(e):
      e = np.abs(e)
    vp.check_close(np.array(im.get_array(), dtype=float), e, "spectrogram",
                   1e-5, 1e-6)
    vp.check_close(im.get_extent(), (t[0], t[-1], *fl), "extent")
    vp.check(im.get_cmap().name == "gray", "image options")
  vp.check(np.array_equal(x, X[xn]), "signal modified")
  plt.close("all")
  return repr((case, [np.round(y, 5).tolist()[:8] for _, y in exp]))


# --- Comparison of beat models -----------------------------------------------------
class Curves(base.BaseEstimator):
  """Regression with known curves; logs what it is given"""
  got = []

  def __init__(self, k=1., fs=1000, noisy=False):
    self.k = k
    self.fs = fs
    self.noisy = noisy

  def fit(self, t, a, f):
    import warnings
    if self.noisy:
      warnings.warn("noise", RuntimeWarning)
    Curves.got.append((self.k, np.array(t), np.array(a), np.array(f),
                       id(self)))
    self.params_ = (1., .5, 100 + self.k, 104 + self.k, .1, .2, 0., 0.)
    return self

  def predict(self, t, *keys):
    d = {
        "am": self.k * np.exp(-t), "a0": self.k * np.exp(-2 * t),
        "a1": 1e-4 * np.exp(-t), "fm": 2 * np.pi * (100 + self.k * t),
        "x": t
    }
    return tuple(np.copy(d[k]) for k in (keys or ("x",)))


def gen_comp(tier):
  for n in (1, 2, 3):
    for track in (0, 1):
      for fs in (None, 250.):
        for tr in (False, True):
          for ht in (False, True, 1, 2, 7, 40):
            for where in ("gcf", "fig", "axs", "list"):
              for ign in (True, False):
                if where == "gcf" or (track and n < 3):
                  yield [n, track, fs, tr, ht, where, ign]


def run_comp(case, st):
  import warnings
  n, track, fs, tr, ht, where, ign = case
  rate, h = 1000, 100
  script = [make_track(i, [1, 0, 1, 1][:4 - i], "d", 100. * (i + 1), False)
            for i in range(2)]
  Framed.script, Framed.n_frames = script, 9
  m = SAMPLE(sinusoidal=Framed(w=np.ones(64), n=128, tracker__fs=rate,
                               tracker__h=h, tracker__reverse=False,
                               padded=True),
             regressor=LineThrough(), regressor_k="slope",
             regressor_q="level")
  x = np.cos(np.arange(61) * .7)
  m.fit(x)
  users = {"m%d" % i: Curves(k=1. + i, noisy=True) for i in range(n)}
  plt.close("all")
  kw = {}
  if where == "gcf":
    fig = plt.gcf()
  elif where == "fig":
    fig = kw["fig"] = plt.figure()
    plt.figure()
  else:
    fig, a = plt.subplots(3, n, squeeze=False)
    kw["axs"] = a if where == "axs" else [list(r) for r in a]
    plt.figure()
  del Curves.got[:]
  with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    f, axs = plots.beatsdrop_comparison(m, users, x, track_i=track, fs=fs,
                                        transpose=tr, signal_hilbert_am=ht,
                                        warnings_ignore=ign, **kw)
    k = sum("noise" in str(v.message) for v in w)
  vp.check(k == (0 if ign else n), "%d warnings of %d models", k, n)
  vp.check(f is fig, "figure")
  given = where in ("axs", "list")
  t_ = tr and not given
  axs = np.array(axs)
  vp.check(axs.shape == ((n, 3) if t_ else (3, n)), "shape %s", axs.shape)
  vp.check([v.get_xlabel() for v in axs[-1]] == ["time (s)"] * axs.shape[1],
           "labels of the time axes")
  if t_:
    axs = axs.T
  tk = script[track]
  idx = [i for i, v in enumerate(tk["mag"]) if v == v]
  t = np.array([(tk["start_frame"] + i) * h / rate for i in idx])
  mag = np.array([tk["mag"][i] + 20 * math.log10(2) for i in idx])
  frq = np.array([tk["freq"][i] for i in idx])
  vp.check(len(Curves.got) == n, "fits")
  for i, ((name, u), g) in enumerate(zip(users.items(), Curves.got)):
    vp.check(not hasattr(u, "params_"), "the model of the user was fitted")
    vp.check(g[0] == u.k, "order")
    vp.check_close(g[1], t, "time axis given")
    vp.check_close(g[2], mag, "magnitude given")
    vp.check_close(g[3], frq, "frequency given")
    vp.check(axs[0][i].get_title() == name, "title")
    am, a0, a1, fm = (u.k * np.exp(-t), u.k * np.exp(-2 * t),
                      1e-4 * np.exp(-t), 100 + u.k * t)
    cur = {"Sinusoidal Track": 10**(mag / 20), "Prediction": am,
           "$A_1(t)$": a0, "$A_2(t)$": a1}
    sig_t = np.arange(x.size) / (fs or rate)
    ls = {l.get_label(): l for l in axs[0][i].get_lines()}
    if ht:
      vp.check("Signal" not in ls, "signal and envelope")
      step = 1 if ht is True else ht
      sel = [j * step for j in range(x.size // step)]
      env = np.abs(signal.hilbert(x))[sel]
      col, = axs[0][i].collections
      v = col.get_paths()[0].vertices
      ps = {(round(float(a), 9), round(float(b), 9)) for a, b in v}
      for a, b in zip(sig_t[sel], env):
        vp.check((round(float(a), 9), round(float(b), 9)) in ps and
                 (round(float(a), 9), round(float(-b), 9)) in ps,
                 "envelope at %s is not in the area", a)
      vp.check_close(max(p[0] for p in ps), sig_t[sel][-1], "last instant")
    else:
      l = ls.pop("Signal")
      vp.check_close(l.get_xdata(), sig_t, "time of the signal")
      vp.check_close(l.get_ydata(), x, "signal")
    vp.check(set(ls) == set(cur), "amplitudes %s", sorted(ls))
    db = {l.get_label(): l for l in axs[1][i].get_lines()}
    vp.check(set(db) == set(cur), "decibels %s", sorted(db))
    for k, e in cur.items():
      vp.check_close(ls[k].get_xdata(), t, "time of " + k)
      vp.check_close(ls[k].get_ydata(), e, k)
      vp.check_close(db[k].get_xdata(), t, "time of " + k)
      e = np.array([20 * math.log10(v) if v > 1e-3 else math.nan for v in e])
      vp.check_close(db[k].get_ydata(), e, k + " in decibels")
    fq = {l.get_label(): l for l in axs[2][i].get_lines()}
    cur = {"Sinusoidal Track": frq, "Prediction": fm,
           r"$\nu_1$": np.full(t.size, 100 + u.k),
           r"$\nu_2$": np.full(t.size, 104 + u.k)}
    vp.check(set(fq) == set(cur), "frequencies %s", sorted(fq))
    for k, e in cur.items():
      vp.check_close(fq[k].get_xdata(), t, "time of " + k)
      vp.check_close(fq[k].get_ydata(), e, k)
  plt.close("all")
  return repr(case)


if __name__ == "__main__":
  vp.main(
      "C27", [("tracks", gen_tracks, run_tracks, {"chunk": 8}),
              ("time-frequency", gen_tf, run_tf, {"chunk": 8}),
              ("resynthesis", gen_resynth, run_resynth, {"chunk": 8}),
              ("comparison", gen_comp, run_comp, {"chunk": 4})],
      level="exploration",
      rule="every layout of tracks x kind of model x reversal x storage, every "
      "set of resynthesized models and of compared regressions x the way of "
      "giving figure and axes; the data of every line and image drawn are "
      "compared to those of the model",
      bounds={"quick": "3 tracks, 2 models, 3 regressions",
              "thorough": "4 tracks"},
      assumptions=["the appearance of the plots is not checked"])

"""C07: deprecated argument names behave as their replacements"""
import itertools
import warnings

import numpy as np
import vp
from sample import SAMPLE, optimize, psycho
from sample import utils
from sample.beatsdrop.sample import SAMPLEBeatsDROP
from sample.evaluation import metrics
from sample.sample import additive_synth
from sample.sms import mm, sm
from sample.utils import SAMPLEDeprecationWarning
from sample.utils.dsp import onset_detection  # noqa: F401 (import check)

# old name -> (new name, two values)
SINES = {
    "max_n_sines": ("tracker__max_n_sines", (3, 7)),
    "min_sine_dur": ("tracker__min_sine_dur", (.125, .5)),
    "freq_dev_offset": ("tracker__freq_dev_offset", (2, 5)),
    "freq_dev_slope": ("tracker__freq_dev_slope", (.5, .25)),
    "save_intermediate": ("intermediate__save", (True, False)),
    "fs": ("tracker__fs", (8000, 16000)),
    "h": ("tracker__h", (17, 31)),
}
MODAL = {
    **SINES,
    "reverse": ("tracker__reverse", (True, False)),
    "frequency_bounds": ("tracker__frequency_bounds", ((1, 2), (None, 5))),
    "peak_threshold": ("tracker__peak_threshold", (-3, -4)),
    "merge_strategy": ("tracker__merge_strategy", ("single", "average")),
    "strip_t": ("tracker__strip_t", (.5, None)),
}


def named(d, old, new):
  return {old + k: (new + v[0], v[1]) for k, v in d.items()}


TARGETS = {
    "sm": (sm.SinusoidalModel, SINES),
    "mm": (mm.ModalModel, MODAL),
    # one level of renaming, the other one, or both
    "sample": (SAMPLE, {
        **named(MODAL, "sinusoidal__", "sinusoidal__"),
    }),
    "sample_model": (SAMPLE, {
        **named(MODAL, "sinusoidal_model__", "sinusoidal__"),
        "sinusoidal_model__n": ("sinusoidal__n", (256, 512)),
        "sinusoidal_model__padded": ("sinusoidal__padded", (True, False)),
        "sinusoidal_model__tracker__fs":
            ("sinusoidal__tracker__fs", (800, 900)),
    }),
}


def plain(m):
  """Comparable parameters"""
  r = {}
  for k, v in m.get_params().items():
    if hasattr(v, "get_params"):
      v = type(v).__name__
    r[k] = repr(v)
  return r


def with_warnings(fn, n, what):
  """fn issues at least n deprecation warnings"""
  with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    r = fn()
  got = [x for x in w if issubclass(x.category, SAMPLEDeprecationWarning)]
  vp.check(len(got) >= n, "%s: %d deprecation warnings, expected %d", what,
           len(got), n)
  if n == 0:
    vp.check(not got, "%s: deprecation warning for current names: %s", what,
             [str(x.message) for x in got])
  return r


# --- Subsets of deprecated names at construction -----------------------------
def gen_init(tier):
  top = 2 if tier == "quick" else 3
  for t, (_, names) in TARGETS.items():
    for n in range(top + 1):
      for s in itertools.combinations(names, n):
        if len({names[k][0] for k in s}) < n:
          continue  # the same parameter under two names
        for v in (0, 1):
          yield [t, list(s), v]
    # nearly all of them
    names = {names[k][0]: k for k in names}.values()
    for n in range(len(names) - 2, len(names) + 1):
      for s in itertools.combinations(names, n):
        yield [t, list(s), 0]
        yield [t, list(reversed(s)), 1]


def run_init(case, st):
  t, s, v = case
  cls, names = TARGETS[t]
  old = {k: names[k][1][v] for k in s}
  new = {names[k][0]: names[k][1][v] for k in s}
  a = with_warnings(lambda: cls(**old), len(s), "deprecated names")
  b = with_warnings(lambda: cls(**new), 0, "current names")
  vp.check(plain(a) == plain(b), "constructed with %r:\n%r\nwith %r:\n%r", old,
           plain(a), new, plain(b))
  for k, x in new.items():
    vp.check(repr(b.get_params()[k]) == repr(x), "parameter %s is %r", k,
             b.get_params()[k])
  c, d = cls(), cls()
  vp.check(c.set_params(**old) is c, "set_params does not return the model")
  d.set_params(**new)
  vp.check(plain(c) == plain(d) == plain(a), "set_params with %r", old)
  return repr(plain(a))


# --- Histories mixing old and new names --------------------------------------
def gen_hist(tier):
  n = 3 if tier == "quick" else 4
  pick = {"sm": ("max_n_sines", "fs"), "mm": ("reverse", "h"),
          "sample": ("sinusoidal__strip_t", "sinusoidal__fs"),
          "sample_model": ("sinusoidal_model__fs", "sinusoidal_model__n")}
  for t, ks in pick.items():
    ops = [(k, v, o) for k in ks for v in (0, 1) for o in (0, 1)]
    for s in itertools.product(ops, repeat=n):
      yield [t, s]


def run_hist(case, st):
  t, s = case
  cls, names = TARGETS[t]
  m, model = cls(), {}
  for i, (k, v, old) in enumerate(s):
    new, vals = names[k]
    with_warnings(lambda: m.set_params(**{k if old else new: vals[v]}),
                  1 if old else 0, "step %d of %r" % (i, s))
    model[new] = vals[v]
    for a, b in model.items():
      vp.check(repr(m.get_params()[a]) == repr(b),
               "step %d of %r: %s is %r instead of %r", i, s, a,
               m.get_params()[a], b)
  return repr((t, sorted(model.items(), key=repr)))


# --- Overrides of fit --------------------------------------------------------
X = .5 * np.cos(2 * np.pi * 1000 * np.arange(2000) / 8000) * np.exp(
    -np.arange(2000) / 1000)
FIT = dict(w=np.hanning(64), n=128, tracker__h=32, tracker__fs=8000)


def gen_fit(tier):
  for t in ("sm", "mm", "sample", "sample_model"):
    _, names = TARGETS[t]
    for n in (1, 2):
      for s in itertools.combinations(names, n):
        if len({names[k][0] for k in s}) < n:
          continue
        if any("frequency_bounds" in k for k in s) or n == 2 and not any(
            k.endswith(("fs", "reverse", "h")) for k in s):
          continue
        for v in (0, 1):
          yield [t, list(s), v]


def run_fit(case, st):
  t, s, v = case
  cls, names = TARGETS[t]
  pre = "sinusoidal__" if cls is SAMPLE else ""
  base = {pre + k: x for k, x in FIT.items()}
  old = {k: names[k][1][v] for k in s}
  new = {names[k][0]: names[k][1][v] for k in s}
  a, b, c = cls(**base), cls(**base), cls(**{**base, **new})

  def go():
    try:
      a.fit(X.copy(), **old)
    except ValueError as e:
      return repr(type(e))
    return None

  err = with_warnings(go, len(s), "fit override")

  def same(m):
    return repr((m.param_matrix_.tolist() if cls is SAMPLE else [
        {k: np.asarray(x).tolist() for k, x in tr.items()} for tr in m.tracks_
    ], plain(m)))

  if err is None:
    b.fit(X.copy(), **new)
    c.fit(X.copy())
    vp.check(same(a) == same(b) == same(c),
             "fit(%r) differs from fit(%r) or from a model built that way:\n"
             "%s\n%s\n%s", old, new,
             same(a)[:800],
             same(b)[:800],
             same(c)[:800])
  else:
    vp.check_raises(ValueError, lambda: b.fit(X.copy(), **new),
                    "fit(%r)" % new)
  return (t, tuple(s), v, err)


# --- Other deprecated arguments ----------------------------------------------
class OtherTracker(mm.ModalTracker):
  """A tracker class"""


def gen_misc(tier):
  for i in range(len(MISC)):
    yield i


def _misc_cls(cls):

  def go():
    m = with_warnings(lambda: cls(sine_tracker_cls=OtherTracker), 1, "class")
    vp.check(type(m.tracker) is OtherTracker, "tracker is %r", m.tracker)
    m = with_warnings(lambda: cls(None, 512, sine_tracker_cls=OtherTracker), 1,
                      "class and positional")
    vp.check(type(m.tracker) is OtherTracker and m.n == 512, "tracker %r", m)
    m = with_warnings(
        lambda: cls(sine_tracker_cls=OtherTracker, fs=123, h=7), 3, "class")
    vp.check(
        type(m.tracker) is OtherTracker and m.fs == 123 and m.h == 7,
        "tracker is %r", m.tracker)
    m = cls()
    m.set_params(sine_tracker_cls=OtherTracker, max_n_sines=3)
    vp.check(type(m.tracker) is OtherTracker and m.tracker.max_n_sines == 3,
             "tracker is %r", m.tracker)

  return go


def _misc_sample():
  m = SAMPLE(sinusoidal_model__sine_tracker_cls=OtherTracker,
             sinusoidal_model__fs=77)
  vp.check(type(m.sinusoidal.tracker) is OtherTracker and
           m.sinusoidal.fs == 77, "tracker %r", m.sinusoidal.tracker)
  inner = mm.ModalModel(n=64)
  m = with_warnings(lambda: SAMPLE(sinusoidal_model=inner), 1, "model")
  vp.check(m.sinusoidal is inner, "sinusoidal model was not set")
  other = mm.ModalModel(n=32)
  m.set_params(sinusoidal_model=other, sinusoidal_model__padded=True)
  vp.check(m.sinusoidal is other and other.padded, "model was not replaced")


def _misc_safe():
  for old, cur, exp in ((3, None, 3), (None, None, 1), (3, 5, 5), (6, 5, 6)):
    kw = {} if cur is None else {"tracker__min_sine_dur": cur}
    m = sm.SinusoidalModel(safe_sine_len=old, **kw)
    vp.check(m.tracker.min_sine_dur == exp, "safe_sine_len=%r, %r: %r", old,
             kw, m.tracker.min_sine_dur)
    m = mm.ModalModel().set_params(safe_sine_len=old, **kw)
    vp.check(m.tracker.min_sine_dur == exp, "safe_sine_len=%r, %r: %r", old,
             kw, m.tracker.min_sine_dur)


def _same(f, what, *a, values=(False, True), **k):
  for v in values:
    x = with_warnings(lambda: f(*a, analytical=v, **k), 1, what)
    y = with_warnings(lambda: f(*a, analytic=v, **k), 0, what)
    x, y = (z if isinstance(z, tuple) else (z,) for z in (x, y))
    vp.check(len(x) == len(y), "%s: number of outputs", what)
    for p, q in zip(x, y):
      if isinstance(p, (np.ndarray, float)):
        vp.check_close(p, q, what)
        vp.check(np.iscomplexobj(p) == np.iscomplexobj(q), "%s: type", what)


def _misc_analytic():
  t = np.arange(200) / 1000
  _same(additive_synth, "additive_synth", t, [100., 200.], [.1, .2], [1., 2.])
  g = psycho.GammatoneFilter(200.)
  _same(lambda **k: g.ir(t, **k), "impulse response")
  _same(lambda **k: g.wavefun(t, **k), "wave function")
  x = np.sin(300 * t)
  bank = psycho.GammatoneFilterbank(n_filters=2, flim=(100, 300))
  _same(lambda **k: bank.precompute(fs=1000, **k).convolve(x), "filterbank")
  kw = dict(fs=1000, n_filters=2, flim=(100, 300))
  modes = (None, "ir", "input", "output")
  _same(lambda **k: psycho.cochleagram(x, **kw, **k)[0],
        "cochleagram",
        values=modes)
  _same(lambda **k: bank.convolve(x, fs=1000, **k),
        "filtering",
        values=modes)
  _same(lambda **k: metrics.CochleagramLoss(**kw, **k)(x, np.sin(200 * t)),
        "cochleagram loss",
        values=modes)


def _misc_optimizer():
  kw = dict(sinusoidal__n=512, max_n_modes=3)
  for f in (lambda: optimize.SAMPLEOptimizer(sample_fn=SAMPLE, sample_kw=kw),
            lambda: optimize.SAMPLEOptimizer(sample_kw=kw),
            lambda: optimize.SAMPLEOptimizer(
                model=SAMPLE(**optimize.sample_kwargs_remapper(**kw)))):
    o = f()
    vp.check(o.model.sinusoidal.n == 512 and o.model.max_n_modes == 3 and
             o.model.sinusoidal.w.size == 512, "optimizer model %r", o.model)
  o = optimize.SAMPLEOptimizer(sample_fn=SAMPLE)
  vp.check(isinstance(o.model, SAMPLE), "optimizer model %r", o.model)
  for names in itertools.chain.from_iterable(
      itertools.combinations(("log_n", "wtype", "wsize", "overlap"), n)
      for n in range(5)):
    vals = {"log_n": 9, "wtype": "hann", "wsize": .5, "overlap": .25}
    a = optimize.sample_kwargs_remapper(
        **{"sinusoidal_model__" + k: vals[k] for k in names})
    b = optimize.sample_kwargs_remapper(
        **{"sinusoidal__" + k: vals[k] for k in names})
    vp.check(repr(sorted(a.items())) == repr(sorted(b.items())),
             "remapper: %r instead of %r", a, b)


# --- Deprecated arguments of the optimizer -----------------------------------
KWS = {
    "absent": None,
    "none": None,
    "empty": {},
    "size": dict(sinusoidal__n=512, max_n_modes=3),
    "remapped": dict(sinusoidal__log_n=9, sinusoidal__overlap=.75),
    "custom": dict(big=True, max_n_modes=2),
}


def custom_remap(big=None, **kwargs):
  kwargs = dict(kwargs)
  if big is not None:
    kwargs["sinusoidal__n"] = 8192 if big else 128
  return kwargs


REMAPS = {
    "absent": optimize.sample_kwargs_remapper,
    "default": optimize.sample_kwargs_remapper,
    "none": None,
    "custom": custom_remap,
}


def gen_opt(tier):
  for fn in (None, "SAMPLE", "SAMPLEBeatsDROP"):
    for model in (False, True):
      if fn and model:
        continue  # the same argument under two names
      for kw in KWS:
        if fn is None and kw == "absent":
          continue
        for rm in REMAPS:
          if (kw == "custom") <= (rm == "custom") and (
              kw != "remapped" or rm in ("absent", "default")):
            for dims in (0, 1):
              yield [fn, model, kw, rm, dims]


def run_opt(case, st):
  """The model is the one of the current arguments"""
  fn, model, kw, rm, dims = case
  cls = {None: SAMPLE, "SAMPLE": SAMPLE,
         "SAMPLEBeatsDROP": SAMPLEBeatsDROP}[fn]
  old = dict(regressor_k="k_", max_n_modes=7)
  d = {"sinusoidal__wsize": (.5, 1.)} if dims else {}
  args = dict(d)
  if fn:
    args["sample_fn"] = cls
  if model:
    args["model"] = SAMPLE(**old)
  vals = KWS[kw]
  if kw != "absent":
    args["sample_kw"] = None if vals is None else dict(vals)
  if rm != "absent":
    args["remap"] = REMAPS[rm]
  keep = repr(sorted(args.get("sample_kw", None) or ()))
  o = with_warnings(lambda: optimize.SAMPLEOptimizer(**args),
                    bool(fn) + (kw != "absent"), "optimizer")
  new = dict(vals or {})
  if REMAPS[rm] is not None:
    new = REMAPS[rm](**new)
  e = cls(**{**(old if model else {}), **new})
  vp.check(type(o.model) is cls and plain(o.model) == plain(e),
           "model:\n%r\ninstead of:\n%r", plain(o.model), plain(e))
  vp.check(repr(sorted(args.get("sample_kw", None) or ())) == keep,
           "arguments of the caller changed")
  p = with_warnings(
      lambda: optimize.SAMPLEOptimizer(
          model=e, **d, **({} if rm == "absent" else {"remap": REMAPS[rm]})),
      0, "optimizer")
  vp.check(o.remap is p.remap is REMAPS[rm], "remapper %r", o.remap)
  vp.check(dict(o.dimensions) == dict(p.dimensions) == d, "dimensions %r",
           o.dimensions)
  return repr(case)


MISC = [_misc_cls(sm.SinusoidalModel), _misc_cls(mm.ModalModel), _misc_sample,
        _misc_safe, _misc_analytic, _misc_optimizer]


def run_misc(case, st):
  MISC[case]()
  return case


# --- The decorator, over every combination of chained renamings --------------
def gen_deco(tier):
  for depth in (1, 2, 3):
    for given in itertools.product((0, 1, 2), repeat=2):
      for pref in (False, True):
        yield [depth, given, pref]


def run_deco(case, st):
  """A chain of renamings k0 -> k1 -> ... of which any link may be used"""
  depth, given, pref = case

  def func(*args, **kwargs):
    return args, kwargs

  f = func
  for i in reversed(range(depth)):
    f = utils.deprecated_argument("k%d" % i if not pref else "k%d_" % i,
                                  "k%d" % (i + 1) if not pref else "k%d_" %
                                  (i + 1), prefix=pref)(f)
  names = []
  for j, g in enumerate(given):
    g = min(g, depth)
    names.append("k%d" % g + ("_%d" % j if pref else ""))
  if len(set(names)) < 2 and not pref:
    names = names[:1]
  if not pref and len(names) == 2:
    return None  # both the old and the new name of one argument
  kw = {n: i + 10 for i, n in enumerate(names)}
  keep = dict(kw)
  with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    a, k = f(1, 2, other=3, **kw)
  vp.check(kw == keep, "arguments of the caller changed")
  exp = {"other": 3}
  nw = 0
  for i, n in enumerate(names):
    g = int(n[1])
    nw += depth - g
    exp["k%d" % depth + n[2:]] = i + 10
  vp.check(a == (1, 2) and k == exp, "%r became %r instead of %r", kw, k, exp)
  vp.check(len(w) == nw, "%d warnings instead of %d", len(w), nw)
  return repr((depth, names))


if __name__ == "__main__":
  vp.main(
      "C07", [("init", gen_init, run_init, {"chunk": 8}),
              ("history", gen_hist, run_hist, {"chunk": 32}),
              ("fit", gen_fit, run_fit, {"chunk": 4}),
              ("optimizer", gen_opt, run_opt, {"chunk": 8}),
              ("misc", gen_misc, run_misc, {"chunk": 1}),
              ("chains", gen_deco, run_deco, {"chunk": 8})],
      level="exploration",
      rule="every subset (bounded) of deprecated names for each model class, "
      "at construction, in set_params, as override of fit and in histories "
      "that mix old and current names; outcome = resulting parameters",
      bounds={
          "quick": "subsets of <=2 names, histories of 3 assignments",
          "thorough": "subsets of <=3 names, histories of 4 assignments"
      },
      assumptions=["an argument given under both its old and new name is "
                   "outside the property"])

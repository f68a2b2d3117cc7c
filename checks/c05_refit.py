"""C05: results depend on the current parameters and input only"""
import itertools

import numpy as np
import vp
from c04_params import LineThrough
from sample import SAMPLE
from sample.beatsdrop import sample as bds
from sample.sms import mm, sm
from sklearn import base

FS = 2000


def tone(f, d, a, n=500):
  t = np.arange(n) / FS
  return a * np.exp(-2 * t / d) * np.cos(2 * np.pi * f * t)


AUDIO = {
    "A": tone(300, .2, .5) + tone(700, .1, .3),
    "B": tone(520, .3, .9, 420) + tone(180, .15, .2, 420),
    "Z": np.zeros(300),
    "S": np.zeros(5),  # shorter than a window: cannot be analysed
}
BASE = dict(sinusoidal__w=np.hanning(64), sinusoidal__n=128,
            sinusoidal__t=-70, sinusoidal__tracker__fs=FS,
            sinusoidal__tracker__h=16, sinusoidal__tracker__min_sine_dur=.05,
            sinusoidal__tracker__peak_threshold=-60,
            sinusoidal__tracker__reverse=False,
            sinusoidal__tracker__max_n_sines=20,
            sinusoidal__intermediate__save=False, sinusoidal__padded=False,
            max_n_modes=None)
W2 = np.hamming(51)
# op -> (kind, argument)
OPS = {
    "fitA": ("fit", ("A", {})),
    "fitB": ("fit", ("B", {})),
    "fitZ": ("fit", ("Z", {})),
    "short": ("fail", ("S", {})),
    "fitB+rev": ("fit", ("B", {
        "sinusoidal__tracker__reverse": True,
        "sinusoidal__padded": True
    })),
    "badfft": ("fail", ("A", {
        "sinusoidal__n": 8
    })),
    "save": ("set", {
        "sinusoidal__intermediate__save": True
    }),
    "win": ("set", {
        "sinusoidal__w": W2,
        "sinusoidal__tracker__max_n_sines": 1,
        "sinusoidal__n": 128
    }),
    "base": ("set", {
        "sinusoidal__n": 128,
        "sinusoidal__tracker__reverse": False,
        "sinusoidal__intermediate__save": False
    }),
    "read": ("read", None),
    "clone": ("clone", None),
}


def snapshot(m):
  """Everything a user can read after fitting"""
  s = m.sinusoidal
  tracks = [{k: np.array(v, dtype=float).tolist() for k, v in t.items()}
            for t in s.tracks_]
  inter = {k: len(v) for k, v in sorted(s.intermediate.get_state().items())}
  pk = [[np.asarray(a).tolist() for a in p]
        for p in s.intermediate.get_state().get("peaks", ())]
  t = np.arange(50) / FS
  return repr((m.param_matrix_.tolist(), tracks, inter, pk, s.w_.tolist(),
               m.predict(t).tolist() if m.freqs_.size else None,
               m.mode_argsort_(), m.energies_.tolist()))


_FRESH = {}


def params_key(p):
  return repr(sorted((k, np.asarray(v).tolist()) for k, v in p.items()))


def fresh(p, audio):
  k = (params_key(p), audio)
  if k not in _FRESH:
    _FRESH[k] = snapshot(SAMPLE(**p).fit(AUDIO[audio].copy()))
  return _FRESH[k]


def check_params(m, p, tr):
  got = m.get_params()
  for k, v in p.items():
    vp.check(np.array_equal(np.asarray(got[k]), np.asarray(v))
             if v is not None else got[k] is None,
             "after %r: parameter %s is %r instead of %r", tr, k, got[k], v)


def step(m, p, last, op, tr, st):
  kind, arg = OPS[op]
  if kind == "set":
    p = {**p, **arg}
    before = repr(m.param_matrix_.tolist()) if last is not None else None
    vp.check(m.set_params(**arg) is m, "set_params does not return the model")
    if last is not None:
      vp.check(repr(m.param_matrix_.tolist()) == before,
               "after %r: learned parameters changed", tr)
    # tracks still active at the end are re-evaluated with the new parameters
    last = None
  elif kind in ("fit", "fail"):
    audio, kw = arg
    p = {**p, **kw}
    x = AUDIO[audio].copy()
    expect_fail = p["sinusoidal__n"] < np.size(
        p["sinusoidal__w"]) or (audio == "S" and not p["sinusoidal__padded"])
    try:
      r = m.fit(x, **kw)
    except Exception as e:  # pylint: disable=W0703
      vp.check(expect_fail, "after %r: fit raised %r", tr, e)
      last = None
    else:
      vp.check(not expect_fail, "after %r: invalid analysis succeeded", tr)
      vp.check(r is m, "fit does not return the model")
      last = fresh(p, audio)
    vp.check(np.array_equal(x, AUDIO[audio]), "after %r: input changed", tr)
  elif kind == "clone":
    old, m = m, base.clone(m)
    vp.check(m is not old and m.sinusoidal is not old.sinusoidal and
             m.sinusoidal.tracker is not old.sinusoidal.tracker and
             m.sinusoidal.intermediate is not old.sinusoidal.intermediate and
             m.regressor is not old.regressor,
             "after %r: a clone shares a component with the original", tr)
    vp.check(not hasattr(m, "param_matrix_"), "after %r: clone is fitted", tr)
    last = None
  check_params(m, p, tr)
  if last is not None and kind in ("fit", "read"):
    for _ in range(2 if kind == "read" else 1):
      s = snapshot(m)
      vp.check(s == last,
               "after %r: results\n%s\ndiffer from those of a fresh model\n%s",
               tr, s[:1500], last[:1500])
    st.outcome(last)
  st.transitions += 1
  st.states += 1
  return m, p, last


def run(case, st):
  m = SAMPLE(**BASE)
  p, last = dict(BASE), None
  for i, op in enumerate(case):
    m, p, last = step(m, p, last, op, case[:i + 1], st)
  st.traces += 1


def gen(tier):
  # a final fit / read makes the effect of the history visible
  for n in range(0, 4 if tier == "quick" else 5):
    for s in itertools.product(OPS, repeat=n):
      for last in ("fitA", "fitB", "read"):
        yield list(s) + [last]


# --- Independence of instances -----------------------------------------------
def gen_two(tier):
  ops = ["0fitA", "0fitB", "0save", "0win", "1fitA", "1fitB", "1read", "1save"]
  for n in range(1, 4 if tier == "quick" else 5):
    for s in itertools.product(ops, repeat=n):
      yield list(s)


def run_two(case, st):
  """Two models built with default components never influence each other"""
  ms = [SAMPLE(**BASE), SAMPLE(**BASE)]
  state = [(m, dict(BASE), None) for m in ms]
  for i, op in enumerate(case):
    j = int(op[0])
    m, p, last = state[j]
    state[j] = step(m, p, last, op[1:], case[:i + 1], st)
    o, po, lo = state[1 - j]
    check_params(o, po, case[:i + 1])
    if lo is not None:
      # the stored results of the other model still are those of its last fit
      vp.check(o.param_matrix_.tolist() == eval(lo, {"nan": np.nan,
                                                     "inf": np.inf})[0],
               "after %r: fitting one model changed another", case[:i + 1])
  st.traces += 1


# --- Analysis model alone, including failures in the middle of a signal ------
class Boom(Exception):
  """Injected failure"""


class BombArgs:
  """Progress callback which fails after a number of frames"""

  def __init__(self, n):
    self.n = n

  def progress_update(self, *_):
    self.n -= 1
    if self.n < 0:
      raise Boom()


def gen_bomb(tier):
  n = 12 if tier == "quick" else 24
  for cls in ("sm", "mm"):
    for save in (False, True):
      for a in "AB":
        for k in range(n):
          for b in "AB":
            yield [cls, save, a, k, b]


def run_bomb(case, st):
  cls, save, a, k, b = case
  cls = {"sm": sm.SinusoidalModel, "mm": mm.ModalModel}[cls]
  kw = dict(w=np.hanning(64), n=128, t=-70, tracker__fs=FS, tracker__h=16,
            tracker__min_sine_dur=.05, intermediate__save=save)
  m = cls(**kw)
  try:
    m.fit(AUDIO[a], _fit_args=BombArgs(k))
  except Boom:
    pass
  else:
    return None
  ref = cls(**kw).fit(AUDIO[b])
  m.fit(AUDIO[b])
  vp.check(repr(m.tracks_) == repr(ref.tracks_),
           "tracks after an interrupted analysis differ")
  vp.check(repr(m.intermediate.get_state()) == repr(
      ref.intermediate.get_state()),
           "stored data after an interrupted analysis differs")
  st.states += 1
  st.transitions += 2
  return (len(ref.tracks_), save)


# --- Zero-padding --------------------------------------------------------------
# windows and sounds with few different padded lengths
PADW = {51: np.hamming(51), 64: np.hanning(64), 40: np.blackman(40)}


def gen_pad(tier):
  one = [(w, t - w, k) for w in PADW for t in (451, 480) for k in (0, 1)]
  for s in itertools.product(one, repeat=2 if tier == "quick" else 3):
    for how in ("same", "new"):
      for reverse in (False, True):
        yield [how, reverse, [list(o) for o in s]]


def run_pad(case, st):
  """A padded analysis is the analysis of the sound between zeros"""
  how, reverse, seq = case

  def model(**kw):
    return mm.ModalModel(n=128, t=-70, tracker__fs=FS, tracker__h=16,
                         tracker__min_sine_dur=.05, tracker__reverse=reverse,
                         tracker__peak_threshold=-60, **kw)

  m = model(padded=True)
  out = []
  for w, n, k in seq:
    x = tone(300 + 90 * k, .2, .5, n) + .1 + .2 * k
    a, b = (w + 1) // 2, w // 2
    if reverse:
      a, b = b, a
    if how == "new":
      m = model(padded=True)
    m.set_params(w=PADW[w])
    keep = x.copy()
    m.fit(x)
    vp.check(np.array_equal(x, keep), "input changed")
    r = model(padded=False, w=PADW[w]).fit(
        np.concatenate((np.zeros(a), x, np.zeros(b))))
    p, q = ([[np.array(v, dtype=float).tolist() for _, v in sorted(t.items())
              if np.ndim(v)] for t in o.tracks_] for o in (m, r))
    vp.check(repr(p) == repr(q), "padded analysis of %d samples with a window "
             "of %d after %r: %s\ninstead of %s", n, w, seq, repr(p)[:800],
             repr(q)[:800])
    out.append(len(p))
    st.transitions += 1
  st.states += 1
  st.traces += 1
  return (case, out)


# --- Every parameter changed between fits -------------------------------------
# Different components and values for every parameter: the second value of a
# parameter often has the same type and size as the first one
PAR = {
    "sinusoidal__w": [np.hanning(64), np.blackman(64), 3 * np.hamming(64),
                      np.hamming(51)],
    "sinusoidal__n": [128, 256],
    "sinusoidal__t": [-70, -20],
    "sinusoidal__padded": [False, True],
    "sinusoidal__intermediate__save": [False, True],
    "sinusoidal__tracker__fs": [FS, 1000],
    "sinusoidal__tracker__h": [16, 20],
    "sinusoidal__tracker__min_sine_dur": [.05, .2],
    "sinusoidal__tracker__max_n_sines": [20, 1],
    "sinusoidal__tracker__freq_dev_offset": [20, 1],
    "sinusoidal__tracker__freq_dev_slope": [.01, .5],
    "sinusoidal__tracker__frequency_bounds": [(20, 16000), (None, 400),
                                              (600, None)],
    "sinusoidal__tracker__peak_threshold": [-60, -9],
    "sinusoidal__tracker__merge_strategy": ["average", "single"],
    "sinusoidal__tracker__reverse": [False, True],
    "sinusoidal__tracker__strip_t": [None, 0, .05],
    "freq_reduce": [np.mean, np.median],
    "max_n_modes": [None, 1],
    "regressor": [None, LineThrough()],
    "regressor__method": ["dogbox", "trf"],
}
NOISE = np.random.RandomState(7).randn(400) * .05  # fixed data


def _par(k, i):
  d = {k: PAR[k][i]}
  if k == "regressor" and i:
    d.update(regressor_k="slope", regressor_q="level")
  return {n: (base.clone(v) if hasattr(v, "get_params") else v)
          for n, v in d.items()}


def gen_pairs(tier):
  alts = [(k, i) for k in PAR for i in range(1, len(PAR[k]))]
  for x in (("A", "A"), ("A", "B")) if tier == "quick" else itertools.product(
      "ABN", repeat=2):
    for k, i in alts:
      for route in ("set", "override", "attribute"):
        yield [x[0], x[1], [k, i], None, route]
      for l, j in alts:
        if l != k and tier != "quick" and {k, l} != {
            "regressor", "regressor__method"}:
          yield [x[0], x[1], [k, i], [l, j], "set"]


def run_pairs(case, st):
  """fit with one parameter changed, then with it restored and another one
  changed; and the same in the opposite order"""
  xa, xb, one, two, route = case
  full = {k: v[0] for k, v in PAR.items() if k != "regressor__method"}
  audio = {**AUDIO, "N": AUDIO["B"][:400] + NOISE}

  def with_(*changes):
    p = {k: _par(k, 0)[k] for k in full}
    for c in changes:
      if c is not None:
        p.update(_par(*c))
    return p

  def snap(m):
    return snapshot(m)

  for first, then in ((one, two), (two, one)):
    m = SAMPLE(**with_(first))
    ref1 = snap(SAMPLE(**with_(first)).fit(audio[xa].copy()))
    ref2 = snap(SAMPLE(**with_(then)).fit(audio[xb].copy()))
    vp.check(snap(m.fit(audio[xa].copy())) == ref1, "first fit of %r", case)
    # only the parameters that change
    new, old = with_(then), with_(first)
    ch = {}
    for c in (first, then):
      if c is not None:
        k = c[0]
        if k == "regressor__method":
          ch[k] = PAR[k][c[1] if c is then else 0]
        else:
          ch[k] = new[k]
        if k == "regressor":
          rd = {"regressor_k": "k_", "regressor_q": "q_"}
          ch.update({a: new.get(a, b) for a, b in rd.items()})
    if route == "override":
      m.fit(audio[xb].copy(), **ch)
    elif route == "attribute":
      for k, v in ch.items():
        o = m
        *path, a = k.split("__")
        for q in path:
          o = getattr(o, q)
        setattr(o, a, v)
      m.fit(audio[xb].copy())
    else:
      m.set_params(**ch).fit(audio[xb].copy())
    got = snap(m)
    vp.check(got == ref2, "changing %s (%s) between fits:\n%s\ninstead of\n%s",
             sorted(ch), route, got[:1500], ref2[:1500])
    st.states += 2
    st.transitions += 2
    st.outcome(ref1)
    st.outcome(ref2)


# --- Components given to a model ----------------------------------------------
COMPONENTS = {
    "sm": ("tracker", "intermediate"),
    "mm": ("tracker", "intermediate"),
    "SAMPLE": ("sinusoidal", "sinusoidal__tracker", "sinusoidal__intermediate",
               "regressor"),
    "SAMPLEBeatsDROP": ("sinusoidal", "sinusoidal__tracker",
                        "sinusoidal__intermediate", "regressor", "beatsdrop",
                        "beat_decisor", "beat_decisor__intermediate"),
}


def component_model(cls, **kw):
  an = dict(w=np.hanning(64), n=128, t=-70, tracker__fs=FS, tracker__h=16,
            tracker__min_sine_dur=.05, intermediate__save=True)
  if cls in ("sm", "mm"):
    m = {"sm": sm.SinusoidalModel, "mm": mm.ModalModel}[cls](**an)
  elif cls == "SAMPLE":
    m = SAMPLE(**{"sinusoidal__" + k: v for k, v in an.items()},
               sinusoidal__tracker__peak_threshold=-60)
  else:
    m = bds.SAMPLEBeatsDROP(
        **{"sinusoidal__" + k: v for k, v in an.items()},
        sinusoidal__tracker__peak_threshold=-60,
        sinusoidal__tracker__max_n_sines=2, beat_decisor__intermediate__save=True)
  return m.set_params(**kw)


def component_snap(m, cls):
  s = m if cls in ("sm", "mm") else m.sinusoidal
  out = [[{k: np.array(v, dtype=float).tolist() for k, v in t.items()}
          for t in s.tracks_], repr(s.intermediate.get_state())]
  if s is not m:
    out.append(m.param_matrix_.tolist())
  if cls == "SAMPLEBeatsDROP":
    out.append(repr(m.beat_decisor.intermediate.get_state()))
  return repr(out)


def gen_components(tier):
  for cls, comps in COMPONENTS.items():
    for c in comps:
      for donor in ("unused", "fitA", "fitB", "fitBfitA"):
        for before in ("", "A", "B"):
          for route in ("set", "override", "attribute"):
            for x in "A" if tier == "quick" else "AB":
              if cls != "SAMPLEBeatsDROP" or tier != "quick" or (
                  before in ("", "B") and donor != "fitB"):
                yield [cls, c, donor, before, route, x]


_COMP = {}


def run_components(case, st):
  """A component which has already been used, in a fitted model or alone, has no
  memory of it in the model it is given to"""
  cls, comp, donor, before, route, x = case

  def part(m):
    *path, a = comp.split("__")
    for q in path:
      m = getattr(m, q)
    return m, a

  d = component_model(cls)
  for a in donor.split("fit")[1:]:
    d.fit(AUDIO[a])
  m = component_model(cls)
  if before:
    m.fit(AUDIO[before])
  c = getattr(*part(d))
  if route == "set":
    m.set_params(**{comp: c}).fit(AUDIO[x])
  elif route == "override":
    m.fit(AUDIO[x], **{comp: c})
  else:
    setattr(*part(m), c)
    m.fit(AUDIO[x])
  if (cls, x) not in _COMP:
    _COMP[cls, x] = component_snap(component_model(cls).fit(AUDIO[x]), cls)
  vp.check(getattr(*part(m)) is c, "the given component is not used")
  s = component_snap(m, cls)
  vp.check(s == _COMP[cls, x], "%s: %s of a model after %r given (%s): %s\n"
           "instead of %s", cls, comp, donor, route, s[:1500],
           _COMP[cls, x][:1500])
  st.states += 1
  st.transitions += 2
  st.outcome((cls, x, len(s)))


if __name__ == "__main__":
  vp.main(
      "C05", [("parameters", gen_pairs, run_pairs, {"chunk": 4}),
              ("history", gen, run, {"chunk": 8}),
              ("two_models", gen_two, run_two, {"chunk": 8}),
              ("paddings", gen_pad, run_pad, {"chunk": 8}),
              ("components", gen_components, run_components, {"chunk": 8}),
              ("interrupted", gen_bomb, run_bomb, {"chunk": 8})],
      level="model_checking",
      rule="every sequence of fits (on several inputs, with parameter "
      "overrides, failing), parameter changes, reads and clones; after each "
      "step the parameters and the readable results are compared with a fresh "
      "model given the same parameters and the last input; every parameter is "
      "changed between two fits by each route; one more scenario aborts the "
      "analysis after every frame",
      bounds={
          "quick": "each of 20 parameters changed; 11 operations, sequences of <=3 plus a final fit or read; "
                   "two models, 8 operations, sequences of <=3; abort after "
                   "each of the first 12 frames",
          "thorough": "pairs of parameters changed; sequences of <=4; abort after each of 24 frames"
      },
      assumptions=["results of two identical computations in one process are "
                   "bit-identical"])

"""C14: the beat model is the sum of its two partials"""
import cmath
import copy
import itertools
import math
import pickle

import numpy as np
import vp
from sample import beatsdrop

TAU = 2 * math.pi


class Ramp:
  """Linearly varying amplitude"""

  def __init__(self, a, k):
    self.a, self.k = a, k

  def __call__(self, t):
    return self.a + self.k * np.asarray(t)

  def dt(self, t):
    return self.k + 0 * np.asarray(t)


# amplitude: value, function, derivative
AMPS = {
    "one": (1, lambda t: 1., lambda t: 0.),
    "half": (.5, lambda t: .5, lambda t: 0.),
    "zero": (0, lambda t: 0., lambda t: 0.),
    "decay": (beatsdrop.ExponentialDecay(2., .5), lambda t: 2 * math.exp(
        -4 * t), lambda t: -8 * math.exp(-4 * t)),
    "ramp": (Ramp(1., .75), lambda t: 1 + .75 * t, lambda t: .75),
}
FREQS = [0, .95, 5., 5.5, -3.]
PHASES = [0, 1., -2.5]
AXES = {
    "uniform": [k / 16 for k in range(9)],
    "uneven": [0., .01, .05, .3, .31, 1.],
    "pair": [0., .25],
    "single": [0.],
    "repeated": [0., .125, .125, .125, .25, .3],
    "backwards": [0., -.125, -.25, -.375],
    "there and back": [0., .1, .2, .3, .3, .2, .1, 0., -.1],
    "jumps": [0., .5, .1, .4, -.2, .3],
}


def gen(tier):
  fr = FREQS if tier != "quick" else FREQS[:4]
  for c in itertools.product(AMPS, AMPS, fr, fr, PHASES, PHASES, AXES,
                             ("beat", "modal")):
    if c[-1] == "modal" and (c[0] not in ("one", "half") or c[1] not in
                             ("one", "half")):
      continue
    yield list(c)


def make(case):
  n0, n1, f0, f1, p0, p1, _, kind = case
  if kind == "beat":
    return (beatsdrop.Beat(a0=AMPS[n0][0],
                           a1=AMPS[n1][0],
                           f0=f0,
                           f1=f1,
                           p0=p0,
                           p1=p1), AMPS[n0][1:], AMPS[n1][1:])
  v0, v1 = AMPS[n0][0], AMPS[n1][0]
  d0, d1 = .4, 2.
  return (beatsdrop.ModalBeat(v0, v1, f0, f1, d0, d1, p0, p1),
          (lambda t: v0 * math.exp(-2 * t / d0),
           lambda t: -2 / d0 * v0 * math.exp(-2 * t / d0)),
          (lambda t: v1 * math.exp(-2 * t / d1),
           lambda t: -2 / d1 * v1 * math.exp(-2 * t / d1)))


def run(case, st):
  b, (a0, da0), (a1, da1) = make(case)
  _, _, f0, f1, p0, p1, ax, _ = case
  t = np.array(AXES[ax])
  keep = t.copy()
  z, fm, ok = [], [], []
  for u in t:
    e0 = cmath.exp(1j * (TAU * f0 * u + p0))
    e1 = cmath.exp(1j * (TAU * f1 * u + p1))
    v = a0(u) * e0 + a1(u) * e1
    dv = ((da0(u) + 1j * TAU * f0 * a0(u)) * e0 +
          (da1(u) + 1j * TAU * f1 * a1(u)) * e1)
    ok.append(abs(v) > 1e-6)
    z.append(v)
    fm.append((dv / v).imag if ok[-1] else 0.)
  z, fm, ok = np.array(z), np.array(fm), np.array(ok)
  am_, fm_, pm_, x_ = b.compute(t, ("am", "fm", "pm", "x"))
  vp.check_close(am_, abs(z), "amplitude of the sum", 1e-7, 1e-7)
  vp.check_close(np.broadcast_to(fm_, t.shape)[ok], fm[ok],
                 "instantaneous frequency of the sum", 1e-6, 1e-6)
  if not ok.all():
    st.count("silences")
    return (case, "silent")
  # phase: starts from the phase of the sum, grows by the frequency
  vp.check(abs(cmath.exp(1j * pm_[0]) - z[0] / abs(z[0])) < 1e-7,
           "initial phase %s", pm_[0])
  inc = np.diff(t) * (fm[1:] + fm[:-1]) / 2
  vp.check_close(np.diff(pm_), inc, "phase increments", 1e-6, 1e-6)
  vp.check_close(x_, am_ * np.cos(pm_), "signal")
  vp.check(abs(x_[0] - z[0].real) < 1e-7, "first sample")
  # base variables
  for k, v in (("a0", [a0(u) for u in t]), ("a1", [a1(u) for u in t]),
               ("f0", [f0] * len(t)), ("f1", [f1] * len(t)),
               ("p0", [p0] * len(t)), ("p1", [p1] * len(t)),
               ("da0_dt", [da0(u) for u in t]),
               ("da1_dt", [da1(u) for u in t]),
               ("a_oln", [(a0(u) + a1(u)) / 2 for u in t]),
               ("a_hat", [(a0(u) - a1(u)) / 2 for u in t]),
               ("w_oln", [TAU * (f0 + f1) / 2] * len(t)),
               ("w_hat", [TAU * (f0 - f1) / 2] * len(t)),
               ("f_oln", [(f0 + f1) / 2] * len(t)),
               ("f_hat", [(f0 - f1) / 2] * len(t)),
               ("p_oln", [(p0 + p1) / 2] * len(t)),
               ("p_hat", [(p0 - p1) / 2] * len(t)),
               ("t", t)):
    vp.check_close(np.broadcast_to(b.compute(t, k), t.shape), np.array(v),
                   "variable " + k, 1e-9, 1e-9)
  vp.check(np.array_equal(t, keep), "time axis modified")
  return repr(np.round(x_, 6).tolist())


# --- Integration ---------------------------------------------------------------
def gen_fine(tier):
  for n0, n1 in itertools.product(("one", "half", "decay", "ramp"), repeat=2):
    for f0, f1 in ((2., 3.), (3., 2.), (.95, 1.05), (0., 2.), (5., -3.)):
      for p0, p1 in itertools.product(PHASES, repeat=2):
        yield [n0, n1, f0, f1, p0, p1, None, "beat"]


def run_fine(case, st):
  """On a fine axis the signal is the sum of the partials"""
  b, (a0, _), (a1, _) = make(case)
  _, _, f0, f1, p0, p1, _, _ = case
  t = np.arange(4001) / 4000.
  e = np.array([
      a0(u) * math.cos(TAU * f0 * u + p0) + a1(u) * math.cos(TAU * f1 * u + p1)
      for u in t
  ])
  am = b.am(t)
  # the phase cannot be integrated across (almost) silent instants
  stop = int(np.argmax(am < .1)) if (am < .1).any() else len(t)
  y = b.x(t)
  if stop > 10:
    d = np.abs(y - e)[:stop].max()
    vp.check(d < 2e-3, "signal differs from the sum of the partials by %s", d)
    st.count("samples", stop)
  return repr((stop, np.round(e[::500], 5).tolist()))


# --- Computation does not depend on the outputs requested ------------------------
def gen_out(tier):
  vs = range(len(beatsdrop.Beat().variables))
  for i in vs:
    for j in vs:
      for kind in range(3):
        yield [i, j, kind]


def run_out(case, st):
  i, j, kind = case
  b = [
      beatsdrop.ModalBeat(1, .5, 3., 3.5, 1., .5, 1., 0),
      beatsdrop.Beat(a0=Ramp(1., .5), f1=lambda t: 2 + .1 * t,
                     p0=lambda t: np.sin(t)),
      beatsdrop.Beat()
  ][kind]
  vs = b.variables
  t = np.arange(12) / 10
  keep = t.copy()
  u, v = b.compute(t, vs[i]), b.compute(t, vs[j])
  for names in ([vs[i], vs[j]], (vs[i], vs[j]), iter((vs[i], vs[j]))):
    r = b.compute(t, names)
    vp.check(len(r) == 2, "%d outputs", len(r))
    vp.check(np.array_equal(r[0], u) and np.array_equal(r[1], v),
             "%s computed together with %s is %r, alone it is %r, %r", vs[i],
             vs[j], r, u, v)
  vp.check(np.array_equal(getattr(b, vs[i])(t), u), "attribute " + vs[i])
  vp.check(np.array_equal(t, keep), "time axis modified by " + vs[i])
  for dup in (copy.copy(b), copy.deepcopy(b)):
    vp.check(np.array_equal(dup.compute(t, vs[j]), v), "copy of the model")
  if kind == 0:
    dup = pickle.loads(pickle.dumps(b))
    vp.check(np.array_equal(dup.compute(t, vs[j]), v), "pickle of the model")
    vp.check(not hasattr(b, vs[i] + "_"), "unknown variable")
    vp.check_raises(KeyError, lambda: b.compute(t, vs[i] + "_"),
                    "unknown variable")
  vp.check_raises(AttributeError, lambda: beatsdrop.Beat(a0=lambda x: x),
                  "amplitude without derivative")
  vp.check_raises(AttributeError, lambda: beatsdrop.Beat(a1=lambda x: x),
                  "amplitude without derivative")
  return repr((vs[i], vs[j], kind, np.round(u, 5)))


# --- Numbers and functions ---------------------------------------------------------
class Const:
  """Constant function, possibly with output array"""

  def __init__(self, v, out):
    self.v = v
    if out:
      self.f = lambda t, out=None: np.add(np.zeros(np.shape(t)), v, out=out)
    else:
      self.f = lambda t: np.zeros(np.shape(t)) + v

  def __call__(self, *args, **kwargs):
    return self.f(*args, **kwargs)

  def dt(self, t):
    return np.zeros(np.shape(t))


def gen_mix(tier):
  yield from ([list(c)] for c in itertools.product(range(3), repeat=6))


def run_mix(case, st):
  vals = dict(a0=1., a1=.5, f0=2., f1=2.25, p0=1., p1=-.5)
  kw = {
      k: v if i == 0 else Const(v, i == 1)
      for (k, v), i in zip(vals.items(), case[0])
  }
  b, r = beatsdrop.Beat(**kw), beatsdrop.Beat(**vals)
  t = np.arange(9) / 8
  for o in ("x", "am", "fm", "pm", "a_oln", "f_hat", "w_oln", "p_hat",
            "fm_from_am"):
    vp.check_close(np.broadcast_to(b.compute(t, o), t.shape),
                   np.broadcast_to(r.compute(t, o), t.shape),
                   "variable %s of %r" % (o, case[0]))
  return repr(case)


if __name__ == "__main__":
  vp.main(
      "C14", [("sum", gen, run, {"chunk": 64}),
              ("integration", gen_fine, run_fine, {"chunk": 8}),
              ("constant functions", gen_mix, run_mix, {"chunk": 32}),
              ("outputs", gen_out, run_out, {"chunk": 32})],
      level="exploration",
      rule="every combination of amplitude functions, frequencies, phases and "
      "time axes against the complex sum of the partials and its derivative; "
      "every ordered pair of requested outputs",
      bounds={
          "quick": "5 amplitudes, 4 frequencies, 3 phases, 3 axes",
          "thorough": "5 amplitudes, 5 frequencies, 3 phases, 3 axes"
      },
      assumptions=[
          "time axes start at zero",
          "the phase is not compared across instants where the sum is silent"
      ])

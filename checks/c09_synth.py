"""C09: additive synthesis is the sum of the modes"""
import cmath
import itertools
import math

import numpy as np
import vp
from sample.sample import additive_synth, modal_energy

TIMES = [0.0, .25, 1.0, -.5]
MODES = [(0.0, 1.0, 1.0), (1.0, .5, -.5), (3.5, 4.0, 0.0), (1000.0, .01, 2.0)]
PHASES = [0.0, 1.0, -7.5]


def ref(ts, modes, ph, analytic):
  out = []
  for t in ts:
    s = 0
    for (f, d, a), p in zip(modes, ph):
      e = cmath.exp(1j * (2 * math.pi * f * t + p))
      s += a * math.exp(-2 * t / d) * (e if analytic else e.real)
    out.append(s)
  return out


FORMS = {
    "list": list,
    "array": np.array,
    "tuple": tuple,
    "column": lambda v: np.reshape(np.array(v, dtype=float), (-1, 1)),
    "strided": lambda v: np.repeat(np.array(v, dtype=float), 2)[::2],
}


def gen(tier):
  nt, nm = (2, 2) if tier == "quick" else (3, 3)
  for n in range(1, nt + 1):
    for ts in itertools.product(range(len(TIMES)), repeat=n):
      for m in range(nm + 1):
        for modes in itertools.product(range(len(MODES)), repeat=m):
          yield [ts, modes]


def run(case, st):
  ts = [TIMES[i] for i in case[0]]
  modes = [MODES[i] for i in case[1]]
  cols = [list(c) for c in zip(*modes)] or [[], [], []]
  for form, analytic in itertools.product(FORMS, (False, True)):
    mk = FORMS[form]
    for ph in [None] + list(itertools.product(PHASES, repeat=len(modes))):
      args = [mk(ts)] + [mk(c) for c in cols]
      keep = [np.array(a) for a in args]
      kw = {} if ph is None else {"phases": mk(ph)}
      y = additive_synth(*args, analytic=analytic, **kw)
      vp.check(all(np.array_equal(a, b) for a, b in zip(args, keep)),
               "the arguments were modified")
      vp.check(np.size(y) == len(ts), "%d samples for %d instants", np.size(y),
               len(ts))
      vp.check(np.iscomplexobj(y) == analytic, "type %r (analytic=%r)",
               np.asarray(y).dtype, analytic)
      vp.check_close(
          np.reshape(y, -1),
          np.array(ref(ts, modes, ph or [0.0] * len(modes), analytic)),
          "synthesis of %r at %r, phases %r" % (modes, ts, ph), 1e-9, 1e-9)
      st.outcome(np.round(np.reshape(y, -1), 6).tolist())
  return None


# --- Phases drawn at random ------------------------------------------------------
def gen_random(tier):
  for n in range(4):
    for seed in range(6 if tier == "quick" else 40):
      yield [n, seed]


def phases_of(n, **kw):
  """Phases used for every mode, from one analytic sample per mode"""
  r = []
  for i in range(n):
    a = [1.0 if j == i else 0.0 for j in range(n)]
    r.append(cmath.phase(complex(additive_synth(
        np.array([0.0]), np.zeros(n), np.ones(n), a, phases="random",
        analytic=True, **kw))) % (2 * math.pi))
  return r


def run_random(case, st):
  n, seed = case
  p = phases_of(n, seed=seed)
  vp.check_close(p, phases_of(n, seed=seed), "same seed, other phases")
  t = np.array([0.0, .1, .2])
  args = (t, np.arange(n) + 1.0, np.ones(n), np.ones(n))
  for analytic in (False, True):
    y = additive_synth(*args, phases="random", seed=seed, analytic=analytic)
    vp.check_close(y, additive_synth(*args, phases=p, analytic=analytic),
                   "random phases are not one phase per mode", 1e-9, 1e-9)
  g = np.random.default_rng(seed)
  a = additive_synth(*args, phases="random", rng=g)
  b = additive_synth(*args, phases="random", rng=g)
  h = np.random.default_rng(seed)
  vp.check_close(a, additive_synth(*args, phases="random", rng=h),
                 "same generator state, other phases")
  vp.check_close(b, additive_synth(*args, phases="random", rng=h),
                 "same generator state, other phases")
  if n:
    vp.check(len(set(np.round(p, 9))) == n, "repeated phases %r", p)
    vp.check(not np.allclose(a, b), "the generator is not advanced")
    vp.check(not np.allclose(p, phases_of(n, seed=seed + 1000)),
             "phases do not depend on the seed")
  for bad in ("rand", "", "RANDOM", "zero"):
    vp.check_raises(ValueError, lambda: additive_synth(*args, phases=bad),
                    "phases=%r" % bad)
  return repr(np.round(p, 6))


# --- Energies --------------------------------------------------------------------
def gen_energy(tier):
  for a in (0, 1, -2, .5):
    for d in (0, 1, 3, .25, math.inf):
      yield [a, d]


def run_energy(case, st):
  a, d = case
  e = modal_energy(a, d)
  exp = a * a * d / 4 if not (a == 0 and d == math.inf) else math.nan
  vp.check_close(e, exp, "energy of a=%r, d=%r" % (a, d))
  if exp and 0 < d < 100:
    # the integral of the squared envelope
    t = (np.arange(200000) + .5) * d / 10000
    vp.check_close(np.sum((a * np.exp(-2 * t / d))**2) * d / 10000, e,
                   "energy is not the integral", 1e-6, 1e-9)
  vp.check_close(modal_energy(np.array([a, a]), np.array([d, d])), [exp] * 2,
                 "energies of arrays")
  return e


# --- Sizes -----------------------------------------------------------------------
def gen_sizes(tier):
  ts = [0, 1, 2, 3, 255, 256, 257, 1000, 4095, 4096, 4097, 65536, 65537]
  ms = [0, 1, 2, 3, 15, 16, 17, 64, 65, 129]
  if tier != "quick":
    ts += [131073, 1000000]
    ms += [256, 257, 1025]
  for n in ts:
    for m in ms:
      if n * m <= 7e6:
        yield [n, m]


def run_sizes(case, st):
  """Whatever the numbers of instants and of modes"""
  n, m = case
  t = np.arange(n) / 1000 - .01
  k = np.arange(m)
  f, d, a, p = 20. + 7.3 * k, .2 + .01 * k, (-1.)**k / (1 + k), k * 1.7 - 3
  for analytic in (False, True):
    for ph in (None, p):
      y = additive_synth(t, f, d, a, phases=ph, analytic=analytic)
      e = np.zeros(n, dtype=complex)
      for i in range(m):
        e += a[i] * np.exp((2j * np.pi * f[i] - 2 / d[i]) * t + 1j *
                           (0 if ph is None else p[i]))
      vp.check_close(np.reshape(y, -1), e if analytic else e.real,
                     "%d modes at %d instants" % (m, n), 1e-9, 1e-9)
  return (n, m)


if __name__ == "__main__":
  vp.main(
      "C09", [("sum", gen, run, {"chunk": 8}),
              ("random", gen_random, run_random, {"chunk": 2}),
              ("energy", gen_energy, run_energy, {"chunk": 4}),
              ("sizes", gen_sizes, run_sizes, {"chunk": 4})],
      level="exploration",
      rule="every tuple of instants and modes over small alphabets x phases x "
      "argument form x real or analytic, compared with a scalar sum; random "
      "phases for every seed in a range",
      bounds={
          "quick": "<=2 of 4 instants, <=2 of 4 modes, 3 phases per mode; 13 "
                   "numbers of instants up to 65537 x 10 numbers of modes up "
                   "to 129",
          "thorough": "<=3 instants, <=3 modes; up to 1e6 instants, 1025 modes"
      })

"""C19: randomly generated sounds"""
import itertools
import math

import numpy as np
import vp
from sample.evaluation import random as rnd
from sample.psycho import bark2hz, hz2bark

G = rnd.BeatsGenerator


class Rng:
  """Scripted generator of random numbers: each answer is a choice"""

  def __init__(self, ch, grid):
    self.ch, self.grid, self.log = ch, grid, []

  def _u(self, label, grid=None):
    grid = self.grid if grid is None else grid
    return grid[self.ch(len(grid), label)]

  def _many(self, label, size, f):
    if size is None:
      return f(self._u(label))
    return np.array([f(self._u(label)) for _ in range(size)])

  def beta(self, a, b, size=None):
    self.log.append(("beta", a, b))
    return self._many("beta", size, lambda u: u)

  def uniform(self, low=0., high=1., size=None):
    self.log.append(("uniform", low, high))
    if size is None:
      return low + (high - low) * self._u("uniform", (.25, .75))
    return self._many("uniform", size, lambda u: low + (high - low) * u)

  def exponential(self, scale=1., size=None):
    self.log.append(("exponential", scale))
    return self._many("exponential", size, lambda u: 3 * scale * u)

  def normal(self, loc=0., scale=1., size=None):
    self.log.append(("normal", loc, scale))
    n = 1 if size is None else size
    z = np.array([loc + scale * ((-1)**i) * (i % 3 + 1) for i in range(n)])
    return z if size is not None else float(z[0])


GRID = {"quick": [0., 1., .5], "thorough": [0., 1., .5, .125, .75]}

# --- Frequencies -----------------------------------------------------------------------
RANGES = [(200, 2000), (60, 5000), (400, 1300)]
BEATS = [(1.8, 18), (.5, 40), (3., 3.)]
DELTAS = [(1.5, 4), (.25, 1), (2, 2)]


def gen_freq(tier):
  for c in itertools.product(range(len(RANGES)), range(len(BEATS)),
                             range(len(DELTAS))):
    yield list(c) + [tier]


def run_freq(case, st):
  ri, bi, di, tier = case
  (lo, hi), (b0, b1), (d0, d1) = RANGES[ri], BEATS[bi], DELTAS[di]
  seen = set()

  def execute(ch):
    r = Rng(ch, GRID[tier])
    g = G(f_min=lo, f_max=hi, f_a=1.5, f_b=2.5, beat_min=b0, beat_max=b1,
          beat_a=3.5, beat_b=4.5, delta_min=d0, delta_max=d1, delta_a=5.5,
          delta_b=6.5, rng=r)
    f = np.array(g.freqs())
    vp.check(f.shape == (3,), "shape %r", f.shape)
    vp.check(bool(np.all((f >= lo * (1 - 1e-6)) & (f <= hi * (1 + 1e-6)))),
             "frequencies %r out of (%r, %r)", f, lo, hi)
    beat = abs(f[1] - f[0])
    vp.check(b0 - 1e-6 <= beat <= b1 + 1e-6, "beat of %r Hz not in (%r, %r)",
             beat, b0, b1)
    gap = abs(hz2bark(f[2]) - hz2bark(f[0]))
    vp.check(d0 - 1e-6 <= gap <= d1 + 1e-6, "distance of %r Bark not in "
             "(%r, %r)", gap, d0, d1)
    vp.check(sorted(c[1:] for c in r.log if c[0] == "beta") == [
        (1.5, 2.5), (3.5, 4.5), (5.5, 6.5)
    ], "distributions %r", r.log)
    return f, r.log

  ext = {"lo": 0, "hi": 0, "up": 0, "down": 0, "bmin": 0, "bmax": 0, "dmin": 0,
         "dmax": 0, "above": 0, "below": 0}
  for ch, (f, _) in vp.explore_choices(execute):
    st.transitions += len(ch.points)
    st.traces += 1
    seen.add(tuple(np.round(f, 6)))
    gap = hz2bark(f[2]) - hz2bark(f[0])
    beat = f[1] - f[0]
    ext["lo"] |= min(f) <= lo * (1 + 1e-6)
    ext["hi"] |= max(f) >= hi * (1 - 1e-6)
    ext["up"] |= beat > 0
    ext["down"] |= beat < 0
    ext["bmin"] |= abs(beat) <= b0 + 1e-6
    ext["bmax"] |= abs(beat) >= b1 - 1e-6
    ext["dmin"] |= abs(gap) <= d0 + 1e-6
    ext["dmax"] |= abs(gap) >= d1 - 1e-6
    ext["above"] |= gap > 0
    ext["below"] |= gap < 0
  vp.check(all(ext.values()), "values never generated: %r",
           [k for k, v in ext.items() if not v])
  for f in seen:
    st.outcome(f)
  return None


# --- Two-sided distribution ---------------------------------------------------------------
def gen_beta(tier):
  for l, r in ((0, 1), (.5, 2), (-1, 1), (2, 2), (3, 1)):
    for p in (0, .5, 1, None):
      for n in (None, 0, 1, 3):
        yield [l, r, p, n]


def run_beta(case, st):
  l, r, p, n = case
  kw = {} if p is None else {"positive": p}
  if n is not None:
    kw["size"] = n
  pp = .5 if p is None else p

  def execute(ch):
    g = G(rng=Rng(ch, [0., .25, 1.]))
    x = g.beta_twosides(2, 3, left=l, right=r, **kw)
    if n is None:
      x = [x]
    else:
      vp.check(isinstance(x, list) and len(x) == n, "%d samples: %r", n, x)
    return x

  for ch, x in vp.explore_choices(execute):
    st.transitions += len(ch.points)
    st.traces += 1
    b = [([0., .25, 1.])[c] for lb, _, c in ch.points if lb == "beta"]
    u = [(.25, .75)[c] for lb, _, c in ch.points if lb == "uniform"]
    vp.check_close(x, [(l + (r - l) * v) * (1 if w <= pp else -1)
                       for v, w in zip(b, u)], "samples", 1e-12)
  return case


# --- Decays, amplitudes, noise --------------------------------------------------------------
def gen_par(tier):
  for dm, d in ((.5, 1), (0., 2.), (.75, .75)):
    for am in (-10, 0, -60):
      for ob in (False, True):
        for snr in (45, 0, -20):
          yield [dm, d, am, ob, snr, tier]


def run_par(case, st):
  dm, d, am, ob, snr, tier = case
  s = 10**(snr / 20)

  def execute(ch):
    r = Rng(ch, GRID[tier])
    g = G(decay_min=dm, decay=d, amp_min=am, onlybeat=ob, snr=snr, rng=r)
    return g.decays(), g.amps(), g, r

  for ch, (de, a, g, r) in vp.explore_choices(execute):
    st.transitions += len(ch.points)
    st.traces += 1
    c = [GRID[tier][k] for _, _, k in ch.points]
    vp.check_close(de, [dm + 3 * (d - dm) * u for u in c[:3]], "decays")
    e = [10**(am * (1 - u) / 20) for u in c[3:6]]
    if ob:
      e[2] = 0.
    tot = sum(e)
    vp.check_close(a, [v / tot * s / (1 + s) for v in e], "amplitudes")
    st.outcome(np.round(np.concatenate([de, a]), 9).tolist())
  vp.check_close(g.snr_amp, s, "linear SNR")
  vp.check_close(g.noise_amp + g.sine_amp, 1., "total amplitude")
  vp.check_close(g.sine_amp / g.noise_amp, s, "ratio of the amplitudes")
  for n in (0, 1, 7):
    del r.log[:]
    z = g.noise(n)
    vp.check_close(z, [(1 / (1 + s)) * (-1)**i * (i % 3 + 1) for i in range(n)],
                   "noise")
  return None


# --- Audio ------------------------------------------------------------------------------------
def gen_audio(tier):
  for fs in (1000, 50, 44100):
    for dur in (None, 0, .01, .1):
      for ob in (False, True):
        for snr in (45, 0):
          for k in range(3 if tier == "quick" else 12):
            yield [fs, dur, ob, snr, k]


def run_audio(case, st):
  fs, dur, ob, snr, k = case

  def make():
    # a fixed schedule of answers
    it = itertools.count(k)
    return G(onlybeat=ob, snr=snr, decay=.05, decay_min=.01, rng=Rng(
        lambda n, _: next(it) * (k + 1) % n, [.1, .9, .5, .3]))

  kw = {} if dur is None else {"dur": dur}
  if fs != 44100:
    kw["fs"] = fs
  x, rate, (f, d, a, p) = make().audio(**kw)
  n = int((.15 if dur is None else dur) * fs)
  vp.check(abs(len(x) - n) <= (dur is None) and rate == fs,
           "%d samples at %r Hz", len(x), rate)
  t = np.arange(len(x)) / fs
  e = sum(aa * np.exp(-2 * t / dd) * np.cos(2 * np.pi * ff * t + pp)
          for ff, dd, aa, pp in zip(f, d, a, p))
  na = 1 / (1 + 10**(snr / 20))
  e = e + [na * (-1)**i * (i % 3 + 1) for i in range(len(x))]
  vp.check_close(x, e, "audio", 1e-7, 1e-9)
  vp.check(all(0 <= v <= 2 * math.pi for v in p), "phases %r", p)
  return (case, np.round(x[:4], 9).tolist())


# --- Reproducibility ----------------------------------------------------------------------------
OPS = {
    "freqs": lambda g, **k: g.freqs(**k),
    "decays": lambda g, **k: g.decays(**k),
    "amps": lambda g, **k: g.amps(**k),
    "noise": lambda g, **k: g.noise(nsamples=3, **k),
    "beta": lambda g, **k: g.beta_twosides(2, 3, **k),
    "audio": lambda g, **k: g.audio(dur=.002, **k),
}


def flat(o):
  if isinstance(o, (list, tuple)):
    return [v for x in o for v in flat(x)]
  return np.ravel(o).tolist()


def gen_seed(tier):
  top = 3 if tier == "quick" else 4
  for seq in vp.sequences(OPS, top, 1):
    for seed in (5, 0) if len(seq) > 1 else (5, 0, 1, 2**32 + 1):
      yield [seq, seed]


def run_seed(case, st):
  """Any sequence of calls with a seed is reproducible; a batch is the sequence
  of its elements"""
  seq, seed = case
  runs = []
  for _ in range(2):
    g = G(seed=seed)
    runs.append([flat(OPS[o](g)) for o in seq])
  vp.check(runs[0] == runs[1], "the same seed gives different samples")
  g = G(rng=np.random.default_rng(seed))
  vp.check([flat(OPS[o](g)) for o in seq] == runs[0],
           "seed and generator give different samples")
  g = G(seed=seed + 1)
  vp.check([flat(OPS[o](g)) for o in seq] != runs[0],
           "different seeds give the same samples")
  # batches
  g, h = G(seed=seed), G(seed=seed)
  for i, o in enumerate(seq):
    n = (2, 0, 3)[i % 3]
    a = OPS[o](g, size=n)
    vp.check(isinstance(a, list) and len(a) == n, "batch of %d", n)
    vp.check(flat(a) == flat([OPS[o](h) for _ in range(n)]),
             "batch of %s differs from its elements", o)
    st.transitions += n
  return seq


if __name__ == "__main__":
  vp.main(
      "C19", [("frequencies", gen_freq, run_freq, {"chunk": 1}),
              ("two_sides", gen_beta, run_beta, {"chunk": 4}),
              ("parameters", gen_par, run_par, {"chunk": 2}),
              ("audio", gen_audio, run_audio, {"chunk": 4}),
              ("seeds", gen_seed, run_seed, {"chunk": 16})],
      level="exploration",
      rule="every answer of the random number generator on a grid with the "
      "extremes, for every configuration; every sequence of calls with a seed",
      bounds={
          "quick": "three values of each variable, sequences of 3 calls",
          "thorough": "five values of each variable, sequences of 4 calls"
      },
      assumptions=["frequency ranges wide enough for the required distances",
                   "the generator only uses beta, uniform, exponential and "
                   "normal variables"])

"""C29: detrending, bins, periodograms and autocorrelograms"""
import itertools
import math

import numpy as np
import vp
from sample.utils import dsp
from scipy import signal
from sklearn import base
from sklearn import linear_model

# --- Detrending ------------------------------------------------------------------
AXES = {
    "default": None,
    "gaps": lambda n: [0, 1, 4, 5, 9, 10, 11, 20][:n],
    "reverse": lambda n: [3. - .5 * k for k in range(n)],
    "offset": lambda n: [1e3 + .25 * k for k in range(n)],
}


class Level(base.BaseEstimator):
  """Constant trend: the first value"""

  def fit(self, x, y):
    self.seen = np.shape(x), np.shape(y)
    self.level = np.reshape(y, -1)[0]
    return self

  def predict(self, x):
    return np.full((len(x), 1), self.level, dtype=float)


MODELS = {
    "default": lambda: None,
    "linear": linear_model.LinearRegression,
    "origin": lambda: linear_model.LinearRegression(fit_intercept=False),
    "level": Level,
}
FORMS = {
    "list": list,
    "array": np.array,
    "f32": lambda v: np.array(v, dtype=np.float32),
    "int": lambda v: np.array(v, dtype=np.int64),
    "view": lambda v: np.array([v, v]).T.copy()[:, 0],
}


def gen_detrend(tier):
  for n in range(1, 5 if tier == "quick" else 7):
    for y in itertools.product((0, 1, -3), repeat=n):
      for ax in AXES:
        for m in MODELS:
          for form in FORMS:
            if form in ("list", "array") or n in (1, 3):
              yield [list(y), ax, m, form]


def run_detrend(case, st):
  y, ax, m, form = case
  n = len(y)
  x = list(range(n)) if AXES[ax] is None else AXES[ax](n)
  fx, fy = [float(v) for v in x], [float(v) for v in y]
  mx, my = sum(fx) / n, sum(fy) / n
  if m == "level":
    e = [v - fy[0] for v in fy]
  elif m == "origin":
    d = sum(u * u for u in fx)
    k = sum(u * v for u, v in zip(fx, fy)) / d if d else 0.
    e = [v - k * u for u, v in zip(fx, fy)]
  else:
    d = sum((u - mx)**2 for u in fx)
    k = sum((u - mx) * (v - my) for u, v in zip(fx, fy)) / d if d else 0.
    e = [v - my - k * (u - mx) for u, v in zip(fx, fy)]
  a = FORMS[form](y)
  t = FORMS[form](x) if form != "int" or ax in ("default", "gaps") else (
      np.array(x))
  keep = np.array(a), np.array(t)
  kw = {} if AXES[ax] is None else {"x": t}
  mod = MODELS[m]()
  if mod is not None:
    kw["model"] = mod
  r = dsp.detrend(a, **kw)
  vp.check(np.shape(r) == (n,), "shape %s", np.shape(r))
  vp.check_close(r, e, "residuals", 1e-5 if form == "f32" else 1e-9,
                 1e-3 if form == "f32" else 1e-9)
  vp.check(np.array_equal(keep[0], a) and np.array_equal(keep[1], t),
           "inputs modified")
  for bad in (np.array(3.), np.ones((2, 2)), np.ones((n, 1))):
    vp.check_raises(ValueError, lambda b=bad: dsp.detrend(b), "not 1d")
  return repr(np.round(e, 6).tolist())


# --- Bins ------------------------------------------------------------------------
def gen_bins(tier):
  for nfft in (1, 2, 3, 8, 15):
    for fs in (1., 8., 1000., 44100):
      for k in range(-4, 4 * nfft + 1):
        yield [nfft, fs, k, .05]
      for d in (1e-3, 1e-6, -1e-6, -1e-3):  # near a bin
        for k in range(0, 4 * nfft + 1, 4):
          yield [nfft, fs, k, d]


def run_bins(case, st):
  nfft, fs, k, d = case
  near = d != .05
  f = (k + (0 if k % 4 == 0 and not near else d)) / 4 * fs / nfft
  e = math.ceil((k + d) / 4) if near else math.ceil(k / 4)
  for v in (f, [f], np.array([[f, f]])):
    r = dsp.f2bin(v, nfft, fs)
    exact = nfft in (1, 2, 8) and fs in (1., 8.)
    ok = {e, e + 1} if k % 4 == 0 and not exact and not near else {e}
    vp.check(np.issubdtype(np.asarray(r).dtype, np.integer), "type")
    vp.check(np.shape(r) == np.shape(v), "shape %s", np.shape(r))
    vp.check(set(np.reshape(r, -1).tolist()) <= ok, "bin of %s is %s, not %s",
             f, r, e)
  vp.check_close(dsp.bin2f(k, nfft, fs), k * fs / nfft, "frequency of a bin")
  return (nfft, fs, e)


# --- Periodogram -----------------------------------------------------------------
TIMES = {
    "uneven": [0., .7, 2.1, 3.3, 4.2, 6.9],
    "gap": [.25, 1.25, 2.3, 5.4, 6.45],
    "three": [0., 1.1, 2.35],
    "late": [10.1, 11.3, 13.2, 14.9],
}


def ls_power(t, x, w):
  """Lomb-Scargle periodogram by definition"""
  tau = math.atan2(sum(math.sin(2 * w * u) for u in t),
                   sum(math.cos(2 * w * u) for u in t)) / (2 * w)
  c = [math.cos(w * (u - tau)) for u in t]
  s = [math.sin(w * (u - tau)) for u in t]
  cc, ss = sum(v * v for v in c), sum(v * v for v in s)
  if min(cc, ss) < 1e-3:
    return None
  return .5 * (sum(a * b for a, b in zip(x, c))**2 / cc +
               sum(a * b for a, b in zip(x, s))**2 / ss)


CUTS = [None, 0., .05, .13, .3, .55]
NEAR = 1e-5  # relative distance from a bin


def gen_ls(tier):
  for name, t in TIMES.items():
    for x in itertools.product((1., -2., .5), repeat=3 if tier == "quick" else
                               4):
      for nfft in (4, 7, 16):
        for fs in (1., 2.):
          cuts = list(itertools.product(CUTS, CUTS))
          if name != "uneven" and nfft != 7:
            cuts = [(None, None), (.13, .3)]
          for h, l in cuts:
            yield [name, list(x), nfft, fs, h, l]
  for nfft in (7, 16):
    for fs in (1., 2., 1e-3, 1e4):
      for i, j in itertools.combinations(range(nfft // 2 + 1), 2):
        for d in (1 - NEAR, 1 + NEAR):
          for e in (1 - NEAR, 1 + NEAR):
            yield ["uneven", [1., -2., .5], nfft, fs, i * d * fs / nfft,
                   j * e * fs / nfft]


def signal_of(name, x):
  return [x[i % len(x)] * (1 + .1 * i) for i in range(len(TIMES[name]))]


def check_ls(ls, t, x, nfft, fs, hpf, lpf):
  """Check a periodogram; returns the values (DC as given)"""
  n = nfft // 2 + 1
  vp.check(np.shape(ls) == (n,), "shape %s", np.shape(ls))
  p = []
  for k in range(n):
    f = k * fs / nfft
    lo, hi = hpf or 0., fs if lpf is None else lpf
    tol = 1e-9 * fs
    if k == 0 and lo <= 0 < hi:  # nothing is cut off at the bottom
      vp.check_close(ls[0], (sum(x) / len(x))**2, "power of the mean, cutoff %r" % hpf,
                     1e-7, 1e-9)
      p.append(ls[0])
      continue
    if abs(f - hi) < tol or (abs(f - lo) < tol and f) or f == lo == 0.:
      p.append(ls[k])  # at the limit
      vp.check(np.isfinite(ls[k]) and ls[k] >= 0, "power %s", ls[k])
      continue
    if not lo < f < hi:
      vp.check(ls[k] == 0, "%s Hz is not in (%s, %s), power %s", f, hpf, lpf,
               ls[k])
      p.append(0.)
      continue
    e = ls_power(t, x, 2 * math.pi * f)
    if e is None:
      p.append(ls[k])
      continue
    vp.check_close(ls[k], e, "power at %s Hz" % f, 1e-7, 1e-9)
    p.append(e)
  return p


def run_ls(case, st):
  name, x, nfft, fs, hpf, lpf = case
  t, x = TIMES[name], signal_of(name, x)
  if fs not in (1., 2.):
    t = [v / fs for v in t]
  kw = {}
  if hpf is not None:
    kw["hpf"] = hpf
  if lpf is not None:
    kw["lpf"] = lpf
  at, ax = np.array(t), np.array(x)
  ls, f = dsp.lombscargle_as_fft(at, ax, nfft, fs=fs, **kw)
  vp.check_close(f, [k * fs / nfft for k in range(nfft // 2 + 1)],
                 "frequencies")
  p = check_ls(ls, t, x, nfft, fs, hpf, lpf)
  # options of the periodogram are passed on
  q, _ = dsp.lombscargle_as_fft(at, ax, nfft, fs=fs, normalize=True, **kw)
  e = np.array(p) * 2 / np.dot(ax, ax)
  vp.check_close(q[1:], e[1:], "normalized power", 1e-7, 1e-9)
  # autocorrelogram
  for n in (None, 3):
    for nf in (None, nfft):
      kw2 = dict(kw)
      if n is not None:
        kw2["n"] = n
      if nf is not None:
        kw2["nfft"] = nf
      n_ = math.ceil(max(t) * fs) if n is None else n
      nf_ = 2 * n_ if nf is None else nf
      r = dsp.lombscargle_autocorrelogram(at, ax, fs=fs, **kw2)
      ls, _ = dsp.lombscargle_as_fft(at, ax, nf_, fs=fs, **kw)
      p = check_ls(ls, t, x, nf_, fs, hpf, lpf)
      vp.check_close(r, inverse(p, nf_)[:n_], "autocorrelogram", 1e-7, 1e-9)
  vp.check(np.array_equal(at, t) and np.array_equal(ax, x), "inputs modified")
  return repr(np.round(p, 6).tolist())


def inverse(p, nfft):
  """Cosine sum of a one-sided power spectrum"""
  r = []
  for j in range(nfft):
    v = 0.
    for k, a in enumerate(p):
      w = 1 if k == 0 or 2 * k == nfft else 2
      v += w * a * math.cos(2 * math.pi * j * k / nfft)
    r.append(v / nfft)
  return r


# --- Autocorrelogram -------------------------------------------------------------
def gen_auto(tier):
  top = 5 if tier == "quick" else 7
  for n in range(2, top + 1):
    for x in itertools.product((0, 1, -2), repeat=n):
      yield [list(x)]


def run_auto(case, st):
  x, = case
  n = len(x)
  out = []
  for nfft in sorted({n, n + 1, 2 * n}):
    z = x + [0] * (nfft - n)
    e = [sum(z[i] * z[(i + j) % nfft] for i in range(nfft))
         for j in range(nfft)]
    zc = [complex(v, (i * v) % 3) for i, v in enumerate(z)]
    ec = [sum(zc[(i + j) % nfft] * np.conj(zc[i]) for i in range(nfft))
          for j in range(nfft)]
    one, two, cx = np.fft.rfft(z), np.fft.fft(z), np.fft.fft(zc)
    f = dsp.fft2autocorrelogram
    am, pm = np.abs(cx), np.abs(one)
    given = one, two, cx, am, am**2, pm, pm**2
    keep = [a.copy() for a in given]
    for m in (n, nfft):
      for a, pw in ((one, False), (given[5], False), (given[6], True)):
        vp.check_close(f(a, n=m, nfft=nfft, power=pw), e[:m],
                       "autocorrelogram, one-sided", 1e-9, 1e-9)
      for a, b, pw in ((two, e, False), (cx, ec, False),
                       (given[3], ec, False), (given[4], ec, True)):
        r = f(a, real=False, n=m, nfft=nfft, power=pw)
        vp.check_close(np.asarray(r, dtype=complex), np.array(b[:m]) + 0j,
                       "autocorrelogram, two-sided", 1e-9, 1e-9)
    # defaults
    vp.check_close(np.asarray(f(two, real=False), dtype=complex),
                   np.array(e) + 0j, "default, two-sided", 1e-9, 1e-9)
    vp.check_close(f(one, n=nfft), e, "default FFT size", 1e-9, 1e-9)
    if nfft % 2 == 0:
      vp.check_close(f(one), e, "default, one-sided", 1e-9, 1e-9)
    vp.check(all(np.array_equal(a, b) for a, b in zip(keep, given)),
             "inputs modified")
    out.append(e)
  return repr(out)


if __name__ == "__main__":
  vp.main(
      "C29", [("detrend", gen_detrend, run_detrend, {"chunk": 32}),
              ("bins", gen_bins, run_bins, {"chunk": 64}),
              ("periodogram", gen_ls, run_ls, {"chunk": 16}),
              ("autocorrelogram", gen_auto, run_auto, {"chunk": 16})],
      level="exploration",
      rule="every 3-valued signal x time axis x trend model x form; every "
      "quarter of a bin; every 3-valued signal on uneven axes x transform size "
      "x pair of cutoffs; every 3-valued signal x transform size x form of "
      "spectrum, against sums computed term by term",
      bounds={"quick": "4 and 5 samples, 6 instants",
              "thorough": "6 and 7 samples"},
      assumptions=["the power at the cutoffs (and of the frequency zero when "
                   "the upper cutoff is zero) is not specified"])

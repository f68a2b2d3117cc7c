"""C13: onset detection against its definition"""
import itertools
import math

import numpy as np
import vp
from sample.utils import dsp

MAYBE = None


def ge(a, b):
  """a >= b, or MAYBE when it is a matter of rounding"""
  if a == b:
    return True
  if abs(a - b) < 1e-9:
    return MAYBE
  return a > b


def conj(*v):
  if any(x is False for x in v):
    return False
  return MAYBE if any(x is MAYBE for x in v) else True


def same(y, e, what):
  y = np.asarray(y)
  vp.check(y.dtype == bool and y.shape == (len(e),), "%s: %r", what, y)
  for i, (a, b) in enumerate(zip(y, e)):
    vp.check(b is MAYBE or bool(a) == b, "%s: got %r, expected %r (element %d)",
             what, y.tolist(), e, i)


def maxima(x, w, key=None):
  key = x if key is None else key
  n = len(x)
  return [
      w <= i < n - w and x[i] >= max(key[i - w:i + w + 1]) for i in range(n)
  ]


# --- Local maxima ------------------------------------------------------------------
def gen_max(tier):
  n = 8 if tier == "quick" else 10
  for w in (1, 2, 3):
    for k in range(2 * w + 1, n + 1):
      for x in itertools.product((0, 1, 2), repeat=k):
        yield [x, w]


def run_max(case, st):
  x, w = case
  n = len(x)
  e = maxima(x, w)
  a = np.array(x, dtype=float)
  keep = a.copy()
  same(dsp.local_maxima(a, w=w), e, "local maxima of %r" % (x,))
  if w == 1:
    same(dsp.local_maxima(a), e, "default radius")
  same(dsp.local_maxima(list(x), w=w), e, "local maxima of a list")
  same(dsp.local_maxima(np.repeat(a, 2)[::2], w=w), e, "strided")
  # over another function
  for key in (a[::-1].copy(), np.roll(a, 1), np.append(a * 0 + 1, [9])):
    same(dsp.local_maxima(a, w=w, key=key), maxima(x, w, key.tolist()),
         "local maxima of %r over %r" % (x, key))
  # conjunction with data in the output array
  for m in (0, 1, (1 << n) - 1, 0x55, 0xaa, 0x33):
    old = [bool(m >> i & 1) for i in range(n)]
    out = np.array(old)
    r = dsp.local_maxima(a, w=w, out=out, logical_and=True)
    vp.check(r is out, "output array not used")
    same(out, [p and q for p, q in zip(e, old)], "conjunction with %r" % old)
    out = np.array(old)
    dsp.local_maxima(a, w=w, out=out)
    same(out, e, "overwritten output")
  vp.check(np.array_equal(a, keep), "input modified")
  return repr(e)


# --- Onset selection -----------------------------------------------------------------
CONF = [(1, 1, .75, .3), (1, 2, .5, .1), (2, 1, .25, .0), (1, 3, .75, -.2),
        (1, 0, .5, .3), (2, 1, 0., .45), (1, 1, 1., .3), (1, 2, .75, 1.5)]


def ref_sel(x, w, m, alpha, delta, selfx=True):
  n = len(x)
  mean = sum(x) / n
  std = math.sqrt(sum((v - mean)**2 for v in x) / n) or 1
  f = [(v - mean) / std for v in x]
  g = [0] * n
  p = 0
  for i in range(n):
    p = g[i] = max(f[i], alpha * p + (1 - alpha) * f[i])
  pk = maxima(x, w)
  out = []
  for i in range(n):
    avg = 0.
    if i >= m * w and i < n - w:
      s = f[i - m * w:i + w + 1]
      avg = sum(s) / len(s)
    # an envelope can be equal to the function by definition
    lvl = True if i == 0 else (MAYBE if abs(f[i] - g[i - 1]) < 1e-9 else
                               ge(f[i], g[i - 1]))
    thr = MAYBE if abs(f[i] - avg - delta) < 1e-9 else f[i] > avg + delta
    out.append(conj(pk[i], lvl, thr))
  return out


def gen_sel(tier):
  n = 7 if tier == "quick" else 9
  alpha = (0, 1, 4)
  for c, (w, m, _, _) in enumerate(CONF):
    for k in range(max(2 * w, (m + 1) * w) + 1, n + 1):
      for x in itertools.product(alpha, repeat=k):
        yield [x, c]


def run_sel(case, st):
  x, c = case
  w, m, al, de = CONF[c]
  e = ref_sel(x, w, m, al, de)
  for a in (np.array(x, dtype=float), np.array(x), list(x)):
    keep = np.array(a)
    y = dsp.onset_selection(a, w=w, m=m, alpha=al, delta=de)
    same(y, e, "onsets of %r %r" % (x, CONF[c]))
    vp.check(np.array_equal(np.array(a), keep), "input modified")
  # onsets do not depend on the scale and offset of the function
  y = dsp.onset_selection(np.array(x) * 8. - 16, w=w, m=m, alpha=al, delta=de)
  same(y, e, "onsets of the scaled function")
  st.count("undecided", sum(v is MAYBE for v in e))
  st.count("onsets", sum(v is True for v in e))
  return repr((c, e))


def gen_long(tier):
  """Impulses in a long function, with the default parameters"""
  n = 40 if tier == "quick" else 64
  for i in range(n):
    for j in range(i, n):
      for floor in ((0.,) if tier == "quick" else (0., .25)):
        yield [n, i, j, floor]


def run_long(case, st):
  n, i, j, floor = case
  x = [floor * (k % 2) for k in range(n)]
  x[i] += 5.
  x[j] += 4.
  e = ref_sel(x, 3, 3, .75, 1.5)
  same(dsp.onset_selection(np.array(x)), e, "onsets of impulses %d, %d" % (i, j))
  # mapped to samples of a signal
  for size in (n, 7 * n + 3, n // 2):
    sig = np.zeros(size)
    calls = []

    def fn(s, **kw):
      calls.append((s is sig, kw))
      return np.array(x)

    y = dsp.onset_detection(sig, detection_fn=fn, foo=3)
    vp.check(calls == [(True, {"foo": 3})], "detection function called %r",
             calls)
    ons = {k * size // n for k in range(n) if e[k]}
    may = {k * size // n for k in range(n) if e[k] is MAYBE}
    same(y, [
        True if k in ons else (MAYBE if k in may else False)
        for k in range(size)
    ], "onset instants")
  st.count("onsets", sum(v is True for v in e))
  return repr(e)


# --- Spectral flux ------------------------------------------------------------------
FLUX = [0., 1., -2., 1j, 3 - 4j]


def gen_flux(tier):
  n = 5 if tier == "quick" else 6
  for r in (1, 2, 3):
    for c in (1, 2, 3, 4):
      if r * c <= n:
        for v in itertools.product(range(len(FLUX)), repeat=r * c):
          yield [r, c, v]


def run_flux(case, st):
  r, c, v = case
  m = np.array([FLUX[i] for i in v]).reshape(r, c)
  forms = [m, np.asfortranarray(m), np.repeat(m, 2, axis=1)[:, ::2]]
  if not np.iscomplex(m).any():
    forms += [m.real.copy(), m.real.astype(int), m.real.tolist()]
  e = np.array([
      sum(max(abs(m[i, t + 1]) - abs(m[i, t]), 0) for i in range(r))
      for t in range(c - 1)
  ])
  for f in forms:
    keep = np.array(f)
    vp.check_close(dsp.spectral_flux_from_tf(f), e, "spectral flux of %r" %
                   (m.tolist(),))
    vp.check(np.array_equal(np.array(f), keep), "input modified")
  calls = []

  def tf(x, **kw):
    calls.append((x, kw))
    return "a", 0, m

  vp.check_close(dsp.spectral_flux("sig", tf_fn=tf, a=1), e, "spectral flux")
  vp.check(calls == [("sig", {"a": 1})], "transform called %r", calls)
  return repr(e.tolist())


if __name__ == "__main__":
  vp.main(
      "C13", [("maxima", gen_max, run_max, {"chunk": 128}),
              ("selection", gen_sel, run_sel, {"chunk": 128}),
              ("impulses", gen_long, run_long, {"chunk": 16}),
              ("flux", gen_flux, run_flux, {"chunk": 128})],
      level="exploration",
      rule="every function over three levels up to the bounded length x "
      "radius x key x output array; x selection parameters; every pair of "
      "impulses; every time-frequency matrix over five values",
      bounds={
          "quick": "length 8 (maxima), 7 (selection), matrices of <=5 cells",
          "thorough": "length 10 (maxima), 9 (selection), matrices of <=6 cells"
      },
      assumptions=[
          "functions shorter than a window are outside the property",
          "comparisons decided by rounding only are not checked"
      ])

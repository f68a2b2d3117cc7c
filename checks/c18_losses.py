"""C18: losses"""
import itertools
import math
import multiprocessing

import fakepool
import numpy as np
import vp
from sample import psycho
from sample.evaluation import metrics
from scipy import signal

# --- Distance ------------------------------------------------------------------------
ALPH = [-2., 0., 1.5]
PS = [1, 2, .5, 3]
TYPES = {
    "list": list,
    "float": np.array,
    "float32": lambda v: np.array(v, dtype=np.float32),
    "int16": lambda v: np.array([w * 10000 for w in v]).astype(np.int16),
    "int64": lambda v: np.array([w * 2 for w in v]).astype(np.int64),
    "intlist": lambda v: [int(w * 2) for w in v],
    "uint8": lambda v: np.array([w * 50 + 100 for w in v]).astype(np.uint8),
    "complex": lambda v: np.array(v) * (1 - 2j),
}


def gen_lp(tier):
  top = 3 if tier == "quick" else 4
  for n in range(top + 1):
    for x in itertools.product(ALPH, repeat=n):
      for y in itertools.product(ALPH, repeat=n):
        yield [list(x), list(y)]


def lp(x, y, p):
  s = sum(abs(complex(a) - complex(b))**p for a, b in zip(x, y))
  return s**(1 / p)


def run_lp(case, st):
  x, y = case
  for tx, ty in itertools.product(TYPES, repeat=2):
    if len(x) > 2 and tx != ty and (len(x) + len(tx) + len(ty)) % 3:
      continue
    a, b = TYPES[tx](x), TYPES[ty](y)
    av, bv = np.array(a).tolist(), np.array(b).tolist()
    rt = 1e-5 if "float32" in (tx, ty) else 1e-9
    for p in PS:
      d = metrics.lp_distance(a, b, p=p)
      vp.check(not isinstance(d, complex) and not np.iscomplexobj(d),
               "complex distance %r", d)
      vp.check_close(d, lp(av, bv, p), "distance of %s and %s (p=%r)" %
                     (tx, ty, p), rt, 1e-9)
      if p == 1:
        vp.check_close(metrics.lp_distance(a, b), d, "default exponent", 0)
      vp.check_close(metrics.lp_distance(b, a, p), d, "symmetry", rt, 1e-9)
      vp.check(metrics.lp_distance(a, a, p) == 0, "self distance")
      if x and len(x) % 2 == 0 and tx != "list" and ty != "list" and (
          "intlist" not in (tx, ty)):
        vp.check_close(metrics.lp_distance(a.reshape(2, -1), b.reshape(2, -1),
                                           p), d, "matrices", rt, 1e-9)
    vp.check(np.array(a).tolist() == av and np.array(b).tolist() == bv,
             "inputs modified")
  return case


# --- Spectral loss --------------------------------------------------------------------
def stft(x, w, n, hop):
  """Magnitudes of the frames of the zero-extended signal"""
  m = len(w)
  x = [0.] * (m // 2) + list(x) + [0.] * (m // 2)
  k = -(-(len(x) - m) // hop) if len(x) > m else 0
  x += [0.] * (m + k * hop - len(x))
  s = sum(w)
  fr = np.array([[x[i * hop + j] * w[j] for j in range(m)]
                 for i in range(k + 1)]) / s
  fr = np.concatenate([fr, np.zeros((k + 1, n - m))], axis=1)
  j = np.outer(np.arange(n), np.arange(n // 2 + 1))
  return np.abs(fr @ np.exp(-2j * np.pi * j / n))


def db(m, floor):
  return np.maximum(floor, 20 * np.log10(np.maximum(m, 1e-300)))


SIGNALS = {
    "zero": [0.] * 16,
    "one": [1.] + [0.] * 15,
    "last": [0.] * 15 + [-.5],
    "mid": [0.] * 5 + [1., -2.] + [0.] * 9,
    "cos": [math.cos(.9 * i) for i in range(16)],
    "quiet": [1e-4 * math.cos(.9 * i) for i in range(16)],
    "ramp": [i / 8 - 1 for i in range(16)],
}
WIN = {
    "default": ({}, "hamming", None),
    "size": ({"wsize": 6}, "hamming", 6),
    "type": ({"wtype": "boxcar"}, "boxcar", None),
    "both": ({"wtype": "hann", "wsize": 5}, "hann", 5),
    "array": ({"w": np.array([1., 2., 3., 2.])}, None, 4),
}


def gen_spec(tier):
  for n in (8, 16):
    for ol in (0, .5, .75, .9):
      for w in WIN:
        for al in (None, 0, .3):
          for fl in (-60, -20, 0):
            for p in (1, 2, 3, 4.5):
              if tier != "quick" or (fl, p) in ((-60, 1), (-20, 2), (0, 1),
                                                (-60, 3), (-20, 4.5)):
                yield [n, ol, w, al, fl, p]


def run_spec(case, st):
  n, ol, wk, al, fl, p = case
  kw, wt, ws = WIN[wk]
  m = ws or n
  win = np.array([1., 2., 3., 2.]) if wk == "array" else signal.get_window(wt, m)
  hop = m - int(ol * m)
  mags = {k: stft(v, win, n, hop) for k, v in SIGNALS.items()}
  alpha = (1 / max(1, -fl)) if al is None else al
  opt = dict(kw)
  if al is not None:
    opt["alpha"] = al
  if fl != -60:
    opt["floor_db"] = fl
  if p != 1:
    opt["norm_p"] = p
  if ol != .75:
    opt["olap"] = ol

  def dist(a, b):
    return float((np.abs(a - b)**p).sum()**(1 / p))

  for a, b in itertools.product(SIGNALS, repeat=2):
    x, y = np.array(SIGNALS[a]), np.array(SIGNALS[b])
    v = metrics.lin_log_spectral_loss(x, y, n=n, **opt)
    e = dist(mags[a], mags[b]) + alpha * dist(db(mags[a], fl), db(mags[b], fl))
    vp.check_close(v, e, "loss of %s and %s" % (a, b), 1e-7, 1e-7)
    vp.check(x.tolist() == SIGNALS[a] and y.tolist() == SIGNALS[b],
             "inputs modified")
    if a == b:
      vp.check(v == 0, "loss of a signal with itself: %r", v)
    st.count("losses")
  return (case, round(v, 6))


# --- Many scales -------------------------------------------------------------------------
def scripted(x, y, n=1, k=0, **kw):
  """Base loss: exact floats, different for each scale"""
  if n == 13:
    raise fakepool.Fault("scale 13")
  return float(np.sum(x) * n + np.sum(y) * k) + sum(kw.values())


SCALES = [{"n": 1}, {"n": 2, "k": 3}, {"n": 4, "g": .5}, {"n": 13}]


def gen_multi(tier):
  top = 3 if tier == "quick" else 4
  for c in vp.sequences(range(len(SCALES)), top):
    for how in ("serial", "pool", "njobs"):
      for kw in ({}, {"g": 2.}, {"k": 7}):
        for form in ("tuple", "iterator"):
          yield [c, how, kw, form]


class CtxPool(fakepool.Pool):

  def __enter__(self):
    self.open = True
    return self

  def __exit__(self, *_):
    # the workers of a pool are killed when its context is left
    for t in self.tasks:
      if not t.done:
        t.done = True
        t.value = fakepool.pickle.dumps((False, fakepool.Fault("terminated")))
    self.open = False


def run_multi(case, st):
  idx, how, kw, form = case
  x, y = np.array([1., 2.]), np.array([4.])
  sc = [SCALES[i] for i in idx]
  bad = any(s.get("n") == 13 for s in sc)
  exp = sum(
      3. * s.get("n", 1) + 4. * kw.get("k", s.get("k", 0)) +
      kw.get("g", s.get("g", 0.)) for s in sc)
  mk = (lambda: tuple(sc)) if form == "tuple" else (lambda: iter(sc))

  def call(fn):
    try:
      return float(fn())
    except fakepool.Fault as e:
      vp.check("13" in str(e), "failure %r", e)
      return "fault"

  exp = "fault" if bad else exp
  if how == "serial":
    loss = metrics.MultiScaleSpectralLoss(scripted, mk())
    for _ in range(2):
      vp.check(call(lambda: loss(x, y, **kw)) == exp, "sum of the losses")
    vp.check(call(lambda: metrics.multiscale_spectral_loss(
        x, y, spectral_loss=scripted, stfts=mk(), **kw)) == exp,
             "sum of the losses")
    return case
  orders = set()
  seen = []

  def execute(ch):
    env = fakepool.Env(ch)
    pool = CtxPool(env)
    old = metrics.mp.Pool
    made = []

    def make(processes=None, *a, **k):
      made.append(processes)
      return pool

    multiprocessing.Pool = make
    try:
      if how == "pool":
        if len(idx) % 2:
          r = call(lambda: metrics.MultiScaleSpectralLoss(scripted, mk())(
              x, y, pool=pool, **kw))
        else:
          r = call(lambda: metrics.multiscale_spectral_loss(
              x, y, spectral_loss=scripted, stfts=mk(), pool=pool, **kw))
      else:
        r = call(lambda: metrics.multiscale_spectral_loss(
            x, y, spectral_loss=scripted, stfts=mk(), njobs=2, **kw))
    finally:
      multiprocessing.Pool = old
    vp.check(r == exp, "%s: %r instead of %r", how, r, exp)
    vp.check(made == ([2] if how == "njobs" else []), "pools made: %r", made)
    if how == "njobs":
      vp.check(not pool.open, "pool left open")
    orders.add(tuple(env.order))
    return r

  for ch, r in vp.explore_choices(execute):
    st.transitions += len(ch.points)
    st.traces += 1
    seen.append(r)
  st.count("orders", len(orders))
  return case


# --- Real pool -------------------------------------------------------------------------
def gen_real(tier):
  yield from ([p] for p in ("pool", "njobs"))


def run_real(case, st):
  x = np.array([math.sin(.1 * i) * math.exp(-i / 900) for i in range(4096)])
  y = np.array([math.sin(.11 * i) * math.exp(-i / 700) for i in range(4096)])
  ns = [1 << i for i in range(6, 12)]
  e = sum(metrics.lin_log_spectral_loss(x, y, n=n) for n in ns)
  vp.check_close(metrics.multiscale_spectral_loss(x, y), e, "default scales")
  if case[0] == "pool":
    with multiprocessing.Pool(2) as p:
      v = metrics.multiscale_spectral_loss(x, y, pool=p)
  else:
    v = metrics.multiscale_spectral_loss(x, y, njobs=2)
  vp.check_close(v, e, "parallel loss")
  vp.check_close(
      metrics.multiscale_spectral_loss(y, x, floor_db=-20, stfts=({
          "n": 64
      }, {
          "n": 128,
          "olap": .5
      })),
      metrics.lin_log_spectral_loss(y, x, n=64, floor_db=-20) +
      metrics.lin_log_spectral_loss(y, x, n=128, olap=.5, floor_db=-20),
      "custom scales")
  return round(float(v), 6)


# --- Cochleagrams ------------------------------------------------------------------------
FB = dict(n_filters=3, flim=(50, 300))


def gen_coch(tier):
  for an in (None, "ir", "input", "output"):
    for meth, stride in ((None, None), ("fft", None), ("direct", None),
                         ("auto", None), (None, 1), (None, 3)):
      for p in (1, 2):
        for pp in ("default", "none", "square"):
          yield [an, meth, stride, p, pp]


def run_coch(case, st):
  an, meth, stride, p, pp = case
  kw = dict(FB)
  if pp != "default":
    kw["postprocessing"] = None if pp == "none" else np.square
  fs = 1000
  loss = metrics.CochleagramLoss(fs=fs, analytic=an, method=meth, stride=stride,
                                 p=p, **kw)
  bank = psycho.GammatoneFilterbank(**FB).precompute(fs=fs, analytic=an == "ir")

  def coch(x):
    x = np.array(x)
    if an == "input":
      x = signal.hilbert(x)
    o = bank.convolve(x, method=meth, stride=stride)
    if an == "output":
      o = signal.hilbert(o)
    if pp == "square":
      return np.square(o)
    if pp == "none":
      return o
    return np.maximum(o, 0) if an is None else np.abs(o)

  if an == "input" and stride is not None:  # documented as unsupported
    vp.check_raises(ValueError, lambda: loss(np.ones(16), np.ones(16)),
                    "strided convolution of complex input")
    return case
  c = {k: coch(v) for k, v in SIGNALS.items()}
  for a, b in itertools.product(SIGNALS, repeat=2):
    x, y = np.array(SIGNALS[a]), np.array(SIGNALS[b])
    vp.check_close(loss.cochleagram(x), c[a], "cochleagram", 1e-7, 1e-9)
    v = loss(x, y)
    e = float((np.abs(c[a] - c[b])**p).sum()**(1 / p))
    vp.check(not np.iscomplexobj(v), "complex loss %r", v)
    vp.check_close(v, e, "loss of %s and %s" % (a, b), 1e-7, 1e-9)
    if a == b:
      vp.check(v == 0, "loss of a signal with itself: %r", v)
    vp.check(x.tolist() == SIGNALS[a] and y.tolist() == SIGNALS[b],
             "inputs modified")
  return (case, round(float(v), 6))


if __name__ == "__main__":
  vp.main(
      "C18", [("distance", gen_lp, run_lp, {"chunk": 16}),
              ("spectral", gen_spec, run_spec, {"chunk": 4}),
              ("scales", gen_multi, run_multi, {"chunk": 16}),
              ("real_pool", gen_real, run_real, {"serial": True}),
              ("cochleagram", gen_coch, run_coch, {"chunk": 2})],
      level="exploration",
      rule="every pair of vectors over three values x exponent x data types; "
      "every pair of signals x analysis options; every list of scales x every "
      "completion order of a controlled pool",
      bounds={
          "quick": "vectors of up to 3 values, up to 3 scales",
          "thorough": "vectors of up to 4 values, up to 4 scales"
      },
      assumptions=["signals are not shorter than the window"])

"""C16: regressions of hinges and beats"""
import itertools
import math

import numpy as np
import vp
from sample import beatsdrop, hinge
from sample.beatsdrop import regression
from sample.sms import dsp as sms_dsp
from sample.utils import dsp
from scipy import optimize
from sklearn import base


def hf(x, a, k, q):
  return [k * min(v, a) + q for v in x]


class Lin(base.BaseEstimator):
  """Linear regression with other names for its attributes"""

  def fit(self, x, y):
    x, y = np.ravel(x), np.ravel(y)
    xm, ym = x.mean(), y.mean()
    d = float(((x - xm)**2).sum())
    self.slope = np.array([float(((x - xm) * (y - ym)).sum()) / d if d else 0.])
    self.level = ym - float(self.slope[0]) * xm
    # decoys
    self.coef_, self.intercept_ = np.array([1e6]), 1e6
    return self

  def predict(self, x):
    return np.ravel(x) * self.slope[0] + self.level


# --- Hinge: every small track --------------------------------------------------------
AXES = [(0., 1.), (0., .01), (.5, .05)]
METHODS = ("dogbox", "trf")


def gen(tier):
  top = 5 if tier == "quick" else 6
  for n in range(2, top + 1):
    for y in itertools.product((0., -6., -20.), repeat=n):
      for ax in range(len(AXES)):
        yield [list(y), ax, METHODS[(sum(map(int, y)) + ax) % 2] if tier ==
               "quick" else "both"]


def run(case, st):
  y, ax, meth = case
  t0, h = AXES[ax]
  n = len(y)
  x = np.array([t0 + i * h for i in range(n)])
  out = None
  for method in METHODS if meth == "both" else (meth,):
    x_in, y_in = x.reshape(-1, 1).copy(), np.array(y)
    seen = []
    kw = {}
    if (n + ax) % 2:
      kw = dict(linear_regressor=Lin(), linear_regressor_k="slope",
                linear_regressor_q="level")
    m = hinge.HingeRegression(method=method, **kw)
    vp.check(m.fit(x_in, y_in) is m, "fit returns the model")
    vp.check(np.array_equal(x_in, x.reshape(-1, 1)) and np.array_equal(
        y_in, y), "fit modified its inputs")
    lin = Lin().fit(x, y)
    k, q = float(lin.slope[0]), lin.level
    # documented bounds
    dq = max(abs(v - q) for v in y) or 1
    lk = sorted((k, 8 * k)) if abs(k) > 1e-9 / h else None
    a_, k_, q_ = map(float, m.coeffs_)
    vp.check((m.a_, m.k_, m.q_) == (a_, k_, q_), "names of the coefficients")
    tol = 1e-6
    vp.check(x[0] - tol <= a_ <= x[-1] + tol, "knee %r outside of the data",
             a_)
    vp.check(q - dq - tol * dq <= q_ <= q + dq + tol * dq,
             "intercept %r further than the data from %r", q_, q)
    if lk is not None:
      vp.check(lk[0] - tol * abs(k) <= k_ <= lk[1] + tol * abs(k),
               "slope %r not between %r and its octuple", k_, k)
    # it is at least as good as the starting point
    ssr = sum((p - v)**2 for p, v in zip(hf(x, a_, k_, q_), y))
    ini = sum((p - v)**2 for p, v in zip(hf(x, (x[0] + x[-1]) / 2, k, q), y))
    vp.check(ssr <= ini + 1e-6 * (1 + ini), "residual %r worse than %r of the "
             "initial coefficients", ssr, ini)
    vp.check_close(m.predict(x), hf(x, a_, k_, q_), "prediction", 1e-9, 1e-9)
    vp.check_close(m.predict(x.reshape(-1, 1)),
                   np.reshape(hf(x, a_, k_, q_), (-1, 1)), "column", 1e-9, 1e-9)
    z = np.array([x[0] - 1, a_, a_ + 1, x[-1] + 9])
    vp.check_close(m.predict(z), hf(z, a_, k_, q_), "extrapolation", 1e-9, 1e-9)
    if len({round(b - a, 9) for a, b in zip(y, y[1:])}) == 1:
      # straight line: perfectly fitted
      vp.check(ssr <= 1e-8 * (1 + max(map(abs, y))**2),
               "line fitted with residual %r", ssr)
    # user-defined start and bounds
    ci = lambda *args: (seen.append(args), (float(x[-1]), -3., 1.))[1]
    bd = lambda *args: (seen.append(args), ((float(x[0]) - 1, -4., 0.),
                                            (float(x[-1]) + 1, -2., 2.)))[1]
    c = hinge.HingeRegression(method=method, coeffs_init=ci, bounds=bd,
                              **kw).fit(x_in, y_in)
    vp.check(len(seen) == 2, "initializer and bounds called %d times",
             len(seen))
    for s in seen:
      vp.check(np.array_equal(np.ravel(s[0]), x) and np.array_equal(
          np.ravel(s[1]), y), "data given to the callables")
      vp.check_close([float(s[2]), float(s[3])], [k, q], "line given to the "
                     "callables", 1e-6, 1e-6)
    vp.check(-4 - tol <= c.k_ <= -2 + tol and -tol <= c.q_ <= 2 + tol and
             x[0] - 1 - tol <= c.a_ <= x[-1] + 1 + tol,
             "coefficients %r out of the user's bounds", c.coeffs_)
    s0 = sum((p - v)**2 for p, v in zip(hf(x, float(x[-1]), -3., 1.), y))
    s1 = sum((p - v)**2 for p, v in zip(hf(x, *map(float, c.coeffs_)), y))
    vp.check(s1 <= s0 + 1e-6 * (1 + s0), "user's start was better")
    out = (n, round(ssr, 3))
  return out


# --- Hinge: recovery --------------------------------------------------------------------
def gen_rec(tier):
  for n in (8, 12, 16, 32) if tier == "quick" else (8, 12, 16, 24, 32, 48, 64):
    for t0, lo in ((0., 5), (.5, 10)):
      for f in range(lo, 19):
        for h in (.01, 1.):
          for k in (-60., -1., .5):
            for q in (-20., 0., 7.):
              if abs(q) <= abs(k) * n * h * 20 or q == 0:
                yield [n, t0, f / 20, h, k, q]
  # slopes close to eight times the slope of the regression line
  for n in (32, 64):
    for f in (.22, .225, .23):
      for q in (0., -20.):
        yield [n, 0., f, .01, -60., q]


def run_rec(case, st):
  n, t0, f, h, k, q = case
  x = t0 + np.arange(n) * h
  a = t0 + f * (n - 1) * h
  y = np.array(hf(x, a, k, q))
  m = hinge.HingeRegression().fit(x.reshape(-1, 1), y)
  s = float(np.ptp(y))
  vp.check(float(np.max(np.abs(m.predict(x) - y))) <= 1e-3 * (s + abs(q) / 10),
           "hinge a=%r k=%r q=%r not recovered: %r", a, k, q, m.coeffs_)
  # the knee is identifiable only if there are samples beyond it
  if (x > a).sum() >= 2 and (x < a).sum() >= 2:
    vp.check_close(m.coeffs_, [a, k, q], "coefficients", 5e-3,
                   5e-3 * max(s, h))
  return case[:3]


# --- Hinge: edges ----------------------------------------------------------------------
def gen_edge(tier):
  yield from ("short", "options", "tie", "column")


def run_edge(case, st):
  if case == "short":
    e = vp.check_raises(ValueError, lambda: hinge.HingeRegression().fit(
        np.array([[.5]]), np.array([-1.])), "track with one point")
    vp.check("length=1" in str(e), "message %r", e)
    b = hinge.HingeRegression().bounds
    for n in (0, 1):
      e = vp.check_raises(ValueError, lambda n=n: b(np.zeros((n, 1)),
                                                    np.zeros(n), 0., 0.),
                          "bounds of %d points" % n)
  elif case == "tie":
    for y in ([0., 0.], [1., -1.], [-5., -5., -5.]):
      x = np.full((len(y), 1), 2.)
      m = hinge.HingeRegression().fit(x, np.array(y))
      vp.check(1 <= m.a_ <= 3, "knee %r", m.a_)
      vp.check_close(m.predict(x).ravel(), [np.mean(y)] * len(y), "level",
                     1e-3, 1e-3)
  elif case == "column":
    for y in ([0., -1., -2., -2.], [0., -7., -1., -9., -9.]):
      x, c = np.arange(float(len(y))).reshape(-1, 1), {}
      for name, v in (("array", np.array(y)), ("list", y),
                      ("column", np.reshape(y, (-1, 1)))):
        m = hinge.HingeRegression().fit(x, v)
        vp.check(np.shape(m.coeffs_) == (3,), "shape of coefficients")
        c[name] = m.coeffs_
        vp.check_close(m.coeffs_, c["array"], "coefficients of a " + name, 1e-9)
  else:
    # options reach the solver
    for y in ([0., -1., -2., -2.], [0., -7., -1., -9., -9.]):
      x, y = np.arange(float(len(y))).reshape(-1, 1), np.array(y)
      for meth in METHODS:
        for kw in ({}, {"max_nfev": 2}, {"loss": "cauchy", "f_scale": .5}):
          m = hinge.HingeRegression(method=meth).fit(x, y, **kw)
          lin = Lin().fit(x, y)
          k, q = lin.slope[0], lin.level
          e = optimize.least_squares(
              lambda p: np.array(hf(x.ravel(), *p)) - y,
              x0=m.coeffs_init(x, y, k, q),
              bounds=m.bounds(x, y, k, q),
              method=meth,
              **kw)
          vp.check_close(m.coeffs_, e.x, "coefficients with %s, %r" %
                         (meth, kw), 1e-6, 1e-6)
  return case


# --- Beats --------------------------------------------------------------------------------
BEATS = [
    (1., .5, 100., 103., .5, .25, 0., -.2),
    (.25, .5, 101., 97., 1., .75, 0., 2.),
    (.01, .02, 1000., 1010., .3, .6, 0., 1.),
    (1., 1., 440., 442., .5, .5, 0., 0.),
]
# length of the track and hop
SIZES = [(8, .05), (24, .02)]
INITS = [None, "true", "user", "bad0", "bad3", "bad7", "edge"]
OPTS = [{}, {"loss": "linear"}, {"max_nfev": 4}]
NAMES = ("a0", "a1", "f0", "f1", "d0", "d1", "p0", "p1")


def gen_beat(tier):
  for b in range(len(BEATS)):
    for s in range(len(SIZES)):
      for i in range(len(INITS)):
        for dual in (0, 1, 2):
          for o in range(len(OPTS)):
            yield [b, s, i, dual, o]


def beat_data(b, s):
  n, h = SIZES[s]
  t = np.arange(n) * h
  m = beatsdrop.ModalBeat(*BEATS[b])
  u = np.arange(0, t[-1] + 1 / 16000, 1 / 16000)
  am, fm = m.compute(u, ("am", "fm"))
  a = 20 * np.log10(np.interp(t, u, am))
  f = np.interp(t, u, fm) / (2 * np.pi)
  return t, a, f


def cost(r, loss):
  z = np.square(r)
  return .5 * float(np.sum(np.log1p(z) if loss == "cauchy" else z))


def run_beat(case, st):
  b, s, i, dual, o = case
  t, a, f = beat_data(b, s)
  ini, opt = INITS[i], OPTS[o]
  calls = []
  kw = {}
  x0 = lo = hi = None
  if ini is not None:
    p = BEATS[b]
    x0 = tuple(p) if ini == "true" else tuple(
        v * 1.05 + .01 for v in p)
    lo = [v - abs(v) * .5 - .5 for v in x0]
    hi = [v + abs(v) * .5 + .5 for v in x0]
    lo[4] = lo[5] = 1e-3
    bad = []
    if ini.startswith("bad"):
      bad = [int(ini[3:])]
      lo[bad[0]], hi[bad[0]] = x0[bad[0]] + 1, x0[bad[0]] + 2
    elif ini == "edge":
      bad = [1, 6]
      lo[1], hi[6] = x0[1], x0[6]
    kw = dict(params_init=lambda *ar: (calls.append(ar), x0)[1],
              bounds=lambda *ar: (calls.append(ar), (tuple(lo), tuple(hi)))[1])
  if dual:
    kw["disambiguate"] = dual == 2
    m = regression.DualBeatRegression(fs=200, lpf=50, **kw)
  else:
    m = regression.BeatRegression(fs=200, lpf=50, **kw)
  inp = [t.copy(), a.copy(), f.copy()]
  if ini is not None and (ini.startswith("bad") or ini == "edge"):
    e = vp.check_raises(ValueError, lambda: m.fit(*inp, **opt),
                        "start out of the bounds")
    said = [k for k in NAMES if "\n  %s=" % k in str(e)]
    vp.check(said == [NAMES[j] for j in bad], "unfeasible parameters %r "
             "reported as %r", bad, said)
    return case
  try:
    m.fit(*inp, **opt)
  except ValueError as e:
    if ini is not None or "unfeasible" not in str(e):
      raise
    st.count("unfeasible")
    return None
  vp.check(all(np.array_equal(p, q) for p, q in zip(inp, (t, a, f))),
           "fit modified its inputs")
  if ini is not None:
    vp.check([len(c) for c in calls] == [5, 5], "calls of the initializer and "
             "of the bounds")
    for c in calls:
      vp.check(all(np.array_equal(p, q) for p, q in zip(c, inp)) and c[4] is m,
               "arguments of the callables")
    vp.check(callable(calls[0][3]) and tuple(calls[1][3]) == x0,
             "arguments of the callables")
    vp.check(tuple(m.initial_params_) == x0, "initial parameters")
  lo, hi = m.bounds_
  vp.check(all(p < q < r for p, q, r in zip(lo, m.initial_params_, hi)),
           "start not within bounds")
  if ini is None:
    # documented start: half of the amplitude each, symmetric frequencies, same
    # decay, first phase zero
    q = m.initial_params_
    vp.check(q[0] == q[1] and q[4] == q[5] and q[6] == 0, "start %r", q)
    vp.check_close((q[2] + q[3]) / 2, np.mean(f), "mean frequency")
    sl, ic = np.polyfit(t, a, 1)
    vp.check_close(q[0], 10**(ic / 20) / 2, "initial amplitude", 1e-6)
    vp.check_close(q[4], -40 * math.log10(math.e) / sl, "initial decay", 1e-6)
    vp.check(-2 * math.pi <= q[7] <= 0, "initial phase %r", q[7])
    vp.check(min(hi[2:4]) > max(f) and max(lo[2:4]) < min(f) and lo[2] == lo[3]
             and hi[2] == hi[3], "frequency bounds")
    vp.check(lo[0] == lo[1] >= 0 and hi[0] == hi[1] >= max(10**(a / 20)),
             "amplitude bounds")
    vp.check(0 < lo[4] == lo[5] < 1e-9 and hi[4] == hi[5] == 100,
             "decay bounds")
  x = np.array(m.result_.x)
  vp.check(all(p <= q <= r for p, q, r in zip(lo, x, hi)),
           "result %r out of the bounds", x)
  # residuals, written down independently
  loss = opt.get("loss", "cauchy")

  def res(p):
    bt = beatsdrop.ModalBeat(*p)
    if dual:
      am, fm = bt.compute(t, ("am", "fm"))
      fe = np.abs(np.array(fm)) / (2 * np.pi)
      q1, q2, q3 = np.quantile(fe, (.25, .5, .75))
      d = 2.5 * (q3 - q1) / 2
      fe = np.minimum(np.maximum(fe, q2 - d), q2 + d)
      mel = lambda v: 2595 * np.log10(1 + v / 700)
      return np.concatenate([10**(a / 20) - am, (mel(f) - mel(fe)) / 3800])
    u = np.arange(math.ceil(np.max(t) * 200)) / 200
    return 10**(a / 20) - np.interp(t, u, bt.compute(u, ("am",))[0])

  for p in (m.initial_params_, x, m.params_, BEATS[b]):
    vp.check_close(m.res_fn_(p), res(p), "residuals at %r" % (p,), 1e-9, 1e-12)
  c0, c1 = cost(res(m.initial_params_), loss), cost(res(x), loss)
  vp.check(c1 <= c0 + 1e-9, "cost %r worse than %r of the start", c1, c0)
  if ini == "true" and not dual:
    vp.check(c1 <= 1e-3, "start at the solution: cost %r", c1)
  sw = (x[0], x[1], x[3], x[2], x[4], x[5], x[7], x[6])
  if dual == 2:
    s0, s1 = (float(np.sum(np.square(res(p)))) for p in (x, sw))
    exp = x if s0 <= s1 else sw
    if abs(s0 - s1) > 1e-9 * (s0 + s1):
      vp.check_close(m.params_, exp, "association of the partials", 0, 0)
    st.count("swapped", int(exp is sw))
  else:
    vp.check_close(m.params_, x, "parameters", 0, 0)
  ref = beatsdrop.ModalBeat(*m.params_)
  v = np.arange(50) / 400
  for outs in ((), ("am",), ("x", "fm")):
    got = m.predict(v.reshape(-1, 1), *outs)
    exp = ref.compute(v, outs or ("x",))
    vp.check(len(got) == len(exp), "number of outputs")
    for g, e in zip(got, exp):
      vp.check_close(g, e, "prediction %r" % (outs,), 1e-9)
  st.outcome((case, np.round(m.params_, 6).tolist()))
  return None


# --- Custom losses --------------------------------------------------------------------
def gen_loss(tier):
  for b in range(len(BEATS)):
    for s in range(len(SIZES)):
      for w in (0., 1 / 3800, 2.):
        for clip in (None, 0., 2.5):
          for al in (0, 1):
            for fl in (0, 1):
              yield [b, s, w, clip, al, fl]


def run_loss(case, st):
  b, s, w, clip, al, fl = case
  t, a, f = beat_data(b, s)
  got = []

  def stop(_t, _a, _f, res_fn, _m):
    got.append(res_fn)
    raise KeyboardInterrupt

  m = regression.DualBeatRegression(
      freq_w=w, freq_clip=clip,
      amp_loss=(lambda p, q: p * 2 - q) if al else None,
      freq_loss=(lambda p, q: (p - q)**3) if fl else None,
      params_init=stop)
  sg = -1 if b % 2 else 1
  try:
    m.fit(t, a, sg * f)
  except KeyboardInterrupt:
    pass
  r = got[0]
  for k, p in enumerate(BEATS):
    for neg in (1, -1):
      p = p[:2] + (neg * p[2], neg * p[3]) + p[4:]
      am, fm = beatsdrop.ModalBeat(*p).compute(t, ("am", "fm"))
      fe = np.abs(np.array(fm)) / (2 * np.pi)
      if clip is not None:
        q1, q2, q3 = np.quantile(fe, (.25, .5, .75))
        d = clip * (q3 - q1) / 2
        fe = np.minimum(np.maximum(fe, q2 - d), q2 + d)
      lin = 10**(a / 20)
      mel = lambda v: 2595 * np.log10(1 + v / 700)
      e = np.concatenate([
          2 * lin - am if al else lin - am,
          w * ((f - fe)**3 if fl else mel(f) - mel(fe))
      ])
      vp.check_close(r(p), e, "residuals at beat %d" % k, 1e-7, 1e-9)
      vp.check_close(r(list(p)), e, "residuals again", 1e-7, 1e-9)
  return case


# --- User-defined starts within the default bounds ----------------------------------------
AMPS0 = [1e-4, .12, 3.]
FREQS0 = [430., 440., 452.]
ENDS0 = [(1e-3, 99., 0., 0.), (50., .2, 3., 50.), (.5, .5, -3., -50.)]


def gen_start(tier):
  for a in itertools.product(range(3), repeat=2):
    for f in itertools.product(range(3), repeat=2):
      for e in range(len(ENDS0)):
        for dual in (0, 1):
          yield [a, f, e, dual]


def run_start(case, st):
  """Whatever the start, the default bounds contain it, and the solver starts
  there"""
  a, f, e, dual = case
  p = (*(AMPS0[i] for i in a), *(FREQS0[i] for i in f), *ENDS0[e])
  t = np.arange(8) * .05
  y = -20 - 30 * t
  fr = 440 + .3 * np.sin(40 * t)
  cls = regression.DualBeatRegression if dual else regression.BeatRegression
  m = cls(fs=200, lpf=50, params_init=lambda *_: p)
  try:
    m.fit(t, y, fr, max_nfev=1)
  except ValueError as ex:
    raise vp.Violation("start %r of the user refused: %s" % (p, ex))
  vp.check(tuple(m.initial_params_) == p, "start %r turned into %r", p,
           m.initial_params_)
  lo, hi = m.bounds_
  vp.check(all(x < v < z for x, v, z in zip(lo, p, hi)), "start %r not within "
           "%r", p, m.bounds_)
  vp.check(max(lo[2:4]) <= min(fr) and min(hi[2:4]) >= max(fr),
           "bounds %r exclude frequencies of the track", m.bounds_)
  vp.check(min(lo[:2]) >= 0 and max(lo[:2]) <= min(10**(y / 20)) and
           min(hi[:2]) >= max(10**(y / 20)),
           "bounds %r exclude amplitudes of the track", m.bounds_)
  vp.check(min(lo[4:6]) > 0 and max(hi[4:6]) <= 100, "decay bounds %r",
           m.bounds_)
  st.count("starts")
  return (tuple(a), tuple(f), e, dual)


# --- Default bounds of flat tracks --------------------------------------------------------
def gen_flat(tier):
  for n in range(0, 6):
    for lev in (-400., -90., 0., 6., -np.inf):
      for df in (0., .2, 5.):
        for p0 in range(3):
          for dual in (0, 1):
            yield [n, lev, df, p0, dual]


def run_flat(case, st):
  """Bounds of tracks without changes in amplitude (also silent ones) or in
  frequency; tracks of less than two frames are refused"""
  n, lev, df, p0, dual = case
  t = np.arange(n) * .05
  a = np.full(n, lev)
  f = 440 + df * np.arange(n)
  amp = 10**(lev / 20)
  p = (amp / 2, amp / 2, *((440., 440.), (441., 438.), (450., 470.))[p0], .5, .7,
       0., -1.)
  m = (regression.DualBeatRegression if dual else regression.BeatRegression)()
  if n < 2:
    e = vp.check_raises(ValueError, lambda: m.bounds(t, a, f, p, m),
                        "bounds of %d frames" % n)
    vp.check("length=%d" % n in str(e), "length of the track in %r", str(e))
    st.count("refused")
    return repr(case)
  lo, hi = m.bounds(t, a, f, p, m)
  vp.check(len(lo) == len(hi) == 8, "%d and %d bounds", len(lo), len(hi))
  vp.check(all(x < y for x, y in zip(lo[:2], hi[:2])),
           "no room for amplitudes in %r", (lo, hi))
  vp.check(all(0 <= x <= amp / 2 <= amp <= y for x, y in zip(lo[:2], hi[:2])),
           "amplitude %s out of %r", amp, (lo, hi))
  for x, y in zip(lo[2:4], hi[2:4]):
    vp.check(x <= min(*p[2:4], *f) and y >= max(*p[2:4], *f),
             "frequencies out of %r", (lo, hi))
  vp.check(all(x < y for x, y in zip(lo[4:], hi[4:])), "no room in %r", (lo, hi))
  vp.check(lo[4:6] == (np.finfo(float).eps,) * 2 and hi[4:6] == (100., 100.),
           "decay bounds %r", (lo, hi))
  vp.check(all(x <= v <= y for x, v, y in zip(lo[4:], p[4:], hi[4:])),
           "start out of %r", (lo, hi))
  st.count("bounds")
  return repr((case, lo, hi))


# --- Default start ------------------------------------------------------------------------
LEVEL0 = [(-6., -1.), (-20., -30.), (0., -.5)]
WAVES0 = {
    "none": lambda t: 0 * t,
    "beat": lambda t: 20 * np.log10(abs(1 + .8 * np.cos(9 * t))),
    "slow": lambda t: 3 * np.cos(2 * t + 1),
    "fast": lambda t: np.cos(28 * t),
    "step": lambda t: np.where(t > t[-1] / 2, 2., 0.),
}


def gen_def(tier):
  for n in (3, 4, 6, 9, 16, 30) if tier == "quick" else range(3, 40):
    for l in range(len(LEVEL0)):
      for w in WAVES0:
        for fs, lpf in ((10, 5), (50, 20), (100, 50)):
          for dual in (0, 1):
            yield [n, l, w, fs, lpf, dual]


def run_def(case, st):
  """The default start: half of the extrapolated amplitude each, frequencies
  around the mean and apart by the beat found in the autocorrelogram of the
  detrended amplitude, together when there is none"""
  n, l, w, fs, lpf, dual = case
  t = np.arange(n) * .1
  y = LEVEL0[l][0] + LEVEL0[l][1] * t + WAVES0[w](t)
  fr = 100 + np.sin(np.arange(n) * 1.3)
  cls = regression.DualBeatRegression if dual else regression.BeatRegression
  m = cls(fs=fs, lpf=lpf)
  try:
    m.fit(t, y, fr, max_nfev=1)
  except ValueError as ex:
    if "unfeasible" not in str(ex):
      raise
    st.count("unfeasible")
    return None
  q = m.initial_params_
  k, c = np.polyfit(t, y, 1)
  corr = dsp.lombscargle_autocorrelogram(t, 10**((y - k * t - c) / 20), fs=fs,
                                         lpf=lpf)
  at, _ = sms_dsp.peak_detect_interp(corr)
  d = fs / 2 / at[0] if len(at) else 0.
  if w == "none" and len(at):
    return None  # rounding errors
  st.count("beats" if len(at) else "no beats")
  if len(set(map(float, q[2:4]))) == 1 and d:
    raise vp.Violation("no beat in %r" % (q,))
  vp.check_close(np.array(q[:6], dtype=float),
                 np.array([10**(c / 20) / 2] * 2 +
                          [np.mean(fr) + d, np.mean(fr) - d] +
                          [-40 * math.log10(math.e) / k] * 2),
                 "default start", 1e-4, 1e-6)
  z = np.sum(10**(y / 20) * np.exp(-4j * np.pi * (q[2] - q[3]) / 2 * t))
  vp.check(q[6] == 0 and -2 * math.pi <= q[7] <= 0, "phases %r", q[6:])
  vp.check(abs(z / abs(z) - np.exp(-1j * q[7])) < 1e-3,
           "phase %r of the beat, not %r", -q[7], np.angle(z))
  return repr(np.round(np.array(q, dtype=float), 4).tolist())


if __name__ == "__main__":
  vp.main(
      "C16", [("hinge", gen, run, {"chunk": 16}),
              ("hinge_recovery", gen_rec, run_rec, {"chunk": 16}),
              ("hinge_edges", gen_edge, run_edge, {"chunk": 1}),
              ("beat", gen_beat, run_beat, {"chunk": 2}),
              ("starts", gen_start, run_start, {"chunk": 16}),
              ("flat", gen_flat, run_flat, {"chunk": 32}),
              ("default_start", gen_def, run_def, {"chunk": 16}),
              ("losses", gen_loss, run_loss, {"chunk": 8})],
      level="exploration",
      rule="every magnitude sequence over three levels x axis x method; every "
      "knee, slope, level and size of a grid; every beat x size x start x "
      "model x solver options",
      bounds={
          "quick": "tracks of up to 5 points",
          "thorough": "tracks of up to 6 points, both methods"
      },
      assumptions=[
          "optimality is checked as improvement over the start within the "
          "bounds; recovery where the knee is in the upper part of the axis"
      ])

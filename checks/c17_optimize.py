"""C17: hyperparameter optimization"""
import itertools
import math
import warnings

import numpy as np
import skopt
import vp
from sample import SAMPLE, optimize
from scipy import signal
from scipy.optimize import OptimizeResult
from sklearn import base

ABSENT = "absent"

# --- Remapper ----------------------------------------------------------------------
DOM = {
    "log_n": [ABSENT, None, 5, 6],
    "n": [ABSENT, 48, 100],
    "wtype": [ABSENT, "hann", ("kaiser", 4.)],
    "wsize": [ABSENT, .5, 1, .29],
    "overlap": [ABSENT, 0, .5, .75, .9, .999, 1, -.5, 1.5],
    "w": [ABSENT, 17],
    "h": [ABSENT, 7],
    "extra": [ABSENT, 3],
}


def gen_remap(tier):
  yield from (list(c) for c in itertools.product(*(range(
      len(v)) for v in DOM.values())))


def near_int(v):
  return {int(v - 1e-9), int(v), int(v + 1e-9)}


def run_remap(case, st):
  c = {k: v[i] for (k, v), i in zip(DOM.items(), case)}
  kw = {}
  for k in ("log_n", "n", "wtype", "wsize", "overlap"):
    if c[k] != ABSENT:
      kw["sinusoidal__" + k] = c[k]
  if c["w"] != ABSENT:
    kw["sinusoidal__w"] = np.arange(1., 1 + c["w"])
  if c["h"] != ABSENT:
    kw["sinusoidal__tracker__h"] = c["h"]
  if c["extra"] != ABSENT:
    kw.update(max_n_modes=3, sinusoidal__tracker__max_n_sines=5)
  keep = dict(kw)
  r = optimize.sample_kwargs_remapper(**kw)
  vp.check(kw.keys() == keep.keys() and all(kw[k] is keep[k] for k in kw),
           "the arguments were modified")
  n = (1 << c["log_n"]) if c["log_n"] not in (ABSENT, None) else None
  if c["n"] != ABSENT:
    n = c["n"]
  exp = {"sinusoidal__w", "sinusoidal__tracker__h"}
  if n is not None:
    exp.add("sinusoidal__n")
    vp.check(r.get("sinusoidal__n") == n, "FFT size %r instead of %r",
             r.get("sinusoidal__n"), n)
  if c["extra"] != ABSENT:
    exp |= {"max_n_modes", "sinusoidal__tracker__max_n_sines"}
    vp.check(r["max_n_modes"] == 3 and
             r["sinusoidal__tracker__max_n_sines"] == 5, "other parameters")
  vp.check(set(r) == exp, "parameters %r instead of %r", sorted(r), sorted(exp))
  if c["w"] != ABSENT:
    vp.check(np.array_equal(r["sinusoidal__w"], keep["sinusoidal__w"]),
             "window replaced")
    sizes = {c["w"]}
  else:
    nn = SAMPLE().sinusoidal.n if n is None else n
    ws = 1. if c["wsize"] == ABSENT else c["wsize"]
    sizes = near_int(nn * ws)
    vp.check(np.size(r["sinusoidal__w"]) in sizes, "window of size %d",
             np.size(r["sinusoidal__w"]))
    vp.check_close(r["sinusoidal__w"],
                   signal.get_window("hamming" if c["wtype"] == ABSENT else
                                     c["wtype"], np.size(r["sinusoidal__w"])),
                   "window")
  h = r["sinusoidal__tracker__h"]
  if c["h"] != ABSENT:
    vp.check(h == c["h"], "hop %r", h)
  else:
    w = np.size(r["sinusoidal__w"])
    ov = .5 if c["overlap"] == ABSENT else c["overlap"]
    e = {max(1, min(w, v)) for v in near_int((1 - ov) * w)}
    vp.check(h in e and int(h) == h, "hop %r instead of %r", h, e)
  # the model accepts them
  m = SAMPLE(**r)
  vp.check(m.sinusoidal.tracker.h == h, "hop of the model")
  vp.check(np.array_equal(m.sinusoidal.w, r["sinusoidal__w"]),
           "window of the model")
  return (sorted(r), n, np.size(r["sinusoidal__w"]), h)


# --- Loss ----------------------------------------------------------------------------
LOG = []


class Tracker(base.BaseEstimator):

  def __init__(self, fs=1):
    self.fs = fs


class Sinusoidal(base.BaseEstimator):

  def __init__(self, tracker=None):
    self.tracker = tracker


class Model(base.BaseEstimator):
  """Scripted model: the resynthesis depends on the parameters only"""

  def __init__(self, a=0., b=1., c=2., sinusoidal=None):
    self.a = a
    self.b = b
    self.c = c
    self.sinusoidal = sinusoidal

  def fit(self, x, **kw):
    LOG.append(("fit", id(self), self.a, self.b, self.c,
                self.sinusoidal.tracker.fs, x.tolist(), kw))
    self.fitted_ = (self.a, self.b, self.c, self.sinusoidal.tracker.fs,
                    x.tolist(), kw)
    return self

  def predict(self, t, **kw):
    LOG.append(("predict", id(self), t.tolist(), sorted(kw.items())))
    return out(t, self.a, self.b, self.c)


def out(t, a, b, c):
  return a + b * np.asarray(t) + c * np.cos(np.asarray(t))


def template():
  return Model(a=.25, sinusoidal=Sinusoidal(Tracker(fs=8)))


def remapper(dims):

  def remap(**kw):
    LOG.append(("remap", sorted(kw.items())))
    r = dict(kw)
    if "z" in r:
      r["c"] = r.pop("z") * 2
    return r

  return remap


DIMS = [(), ("a",), ("b", "a"), ("z",), ("a", "b", "z"), ("z", "a")]
XS = [[0., .5, -1.], [2., -4., 1., 0.], [0., 0.]]
FSS = [1, 4., 10]


def gen_loss(tier):
  top = 2 if tier == "quick" else 3
  for d in range(len(DIMS)):
    for x in range(len(XS)):
      for f in range(len(FSS)):
        for clip in (False, True):
          for lk in (None, {}, {"g": 3}):
            for rm in (0, 1) if "z" not in DIMS[d] else (1,):
              yield [d, x, f, clip, lk, rm, top]


def loss_fn(x, y, g=1):
  LOG.append(("loss", np.asarray(x).tolist(), np.asarray(y).tolist(), g))
  return g * float(np.sum(np.abs(x - y)))


POINTS = [0., 1., -2.]


def run_loss(case, st):
  d, xi, fi, clip, lk, rm, top = case
  dims, x, fs = DIMS[d], np.array(XS[xi]), FSS[fi]
  m = template()
  before = repr(m.get_params())
  o = optimize.SAMPLEOptimizer(model=m, loss_fn=loss_fn, loss_kw=lk, clip=clip,
                               remap=remapper(dims) if rm else None,
                               **{k: skopt.space.Real(-5, 5) for k in dims})
  vp.check(list(o.dimensions) == list(dims), "order of the dimensions")
  f = o.loss(x, fs)
  pts = list(itertools.product(POINTS, repeat=len(dims)))
  if len(pts) > 9:
    pts = pts[::3]
  x_in = x.copy()
  values = {}

  def one(p, **kw):
    del LOG[:]
    v = f(list(p), **kw)
    par = {"a": .25, "b": 1., "c": 2.}
    for k, w in zip(dims, p):
      if k == "z":
        par["c"] = w * 2
      else:
        par[k] = w
    par.update({k: w for k, w in kw.items() if k in par})
    rate = kw.get("sinusoidal__tracker__fs", fs)
    xx = kw.get("x", x)
    t = np.arange(xx.size) / rate
    y = out(t, **par)
    if clip:
      pk = np.max(np.abs(x))
      y = np.minimum(np.maximum(y, -pk), pk)
    vp.check_close(v, (lk or {}).get("g", 1) * np.sum(np.abs(xx - y)), "loss")
    calls = [c for c in LOG if c[0] != "remap"]
    vp.check([c[0] for c in calls] == ["fit", "predict", "loss"],
             "calls %r", [c[0] for c in LOG])
    vp.check(calls[0][1] != id(m), "the model of the user was fitted")
    vp.check(calls[0][2:6] == (par["a"], par["b"], par["c"], rate),
             "parameters %r of the model", calls[0])
    vp.check(calls[0][6] == xx.tolist(), "fitted audio")
    vp.check_close(calls[1][2], t, "resynthesis instants")
    vp.check(calls[1][3] == [("phases", "random")], "resynthesis options %r",
             calls[1][3])
    vp.check(calls[2][1] == xx.tolist(), "order of the loss arguments")
    vp.check_close(calls[2][2], y, "resynthesis")
    if rm:
      e = dict(zip(dims, p))
      e.update({k: w for k, w in kw.items() if k != "x"})
      e["sinusoidal__tracker__fs"] = rate
      vp.check(LOG[0] == ("remap", sorted(e.items())), "remapped %r instead of "
               "%r", LOG[0], e)
    vp.check(repr(m.get_params()) == before and not hasattr(m, "fitted_"),
             "the model of the user was modified")
    vp.check(np.array_equal(x, x_in), "the audio was modified")
    return v

  for p in pts:
    values[p] = one(p)
  # histories of evaluations: no call depends on the previous ones
  for seq in itertools.product(pts[:3], repeat=top):
    for p in seq:
      vp.check(one(p) == values[p], "the loss depends on previous calls")
    st.transitions += top
  # other keyword arguments
  one(pts[0], sinusoidal__tracker__fs=3)
  if "b" not in dims:
    one(pts[0], b=.125)
  one(pts[0], x=x[::-1].copy())
  # wrong number of arguments
  for bad in ((), (1.,), (1., 2.), (1., 2., 3.), (1., 2., 3., 4.)):
    if len(bad) != len(dims):
      e = vp.check_raises(ValueError, lambda bad=bad: f(bad),
                          "%d values for %d dimensions" % (len(bad), len(dims)))
  st.outcome(sorted(values.values()))
  return case


# --- Minimization ----------------------------------------------------------------------
class Boom(Exception):
  pass


def gen_gp(tier):
  for d in range(len(DIMS)):
    for ign in (True, False):
      for state in ("none", "state", "x0", "y0", "both"):
        for fit_kws in (None, {}, {"n_jobs": 2}):
          for fault in (None, 0, 1, "end"):
            yield [d, ign, state, fit_kws, fault]


def run_gp(case, st):
  d, ign, state, fit_kws, fault = case
  dims = DIMS[d]
  m = template()
  before = repr(m.get_params())
  x, fs = np.array(XS[1]), 4.
  spaces = {k: skopt.space.Real(-5, 5, name="dim " + k) for k in dims}
  n_calls = [0]

  def noisy(a, b, g=1):
    warnings.warn("loss warning", UserWarning)
    if fault == n_calls[0]:
      raise Boom()
    n_calls[0] += 1
    return loss_fn(a, b, g)

  o = optimize.SAMPLEOptimizer(model=m, loss_fn=noisy,
                               remap=remapper(dims) if "z" in dims else None,
                               **spaces)
  pts = list(itertools.product(POINTS, repeat=len(dims)))[:4]
  got = []

  def scripted(func, dimensions, **kw):
    got.append((list(dimensions), kw))
    vals = [func(list(p)) for p in pts]
    if fault == "end":
      raise Boom()
    i = int(np.argmin(vals))
    return OptimizeResult(x=list(pts[i]), fun=vals[i], x_iters=pts,
                          func_vals=np.array(vals))

  kw = {"n_calls": 5, "random_state": 3}
  given = {}
  if state in ("state", "x0", "y0", "both"):
    given["state"] = OptimizeResult(x_iters=[[1.] * len(dims)],
                                    func_vals=np.array([7.]))
  if state in ("x0", "both"):
    given["x0"] = [[9.] * len(dims)]
  if state in ("y0", "both"):
    given["y0"] = [5.]
  old = skopt.gp_minimize
  del LOG[:]
  with warnings.catch_warnings(record=True) as rec:
    warnings.simplefilter("always")
    filters = list(warnings.filters)
    skopt.gp_minimize = scripted
    try:
      r = o.gp_minimize(x, fs=fs, ignore_warnings=ign, fit_kws=fit_kws, **kw,
                        **given)
    except Boom:
      r = None
    finally:
      skopt.gp_minimize = old
    vp.check(list(warnings.filters) == filters, "warning filters changed")
  vp.check((r is None) == (fault == "end" or (fault is not None and fault < len(
      pts))), "failure of the loss")
  vp.check(len(got) == 1, "minimizer called %d times", len(got))
  vp.check(len(got[0][0]) == len(dims) and all(
      a is spaces[k] for a, k in zip(got[0][0], dims)), "dimensions")
  e = dict(kw)
  if state == "state":
    e.update(x0=given["state"].x_iters, y0=given["state"].func_vals)
  else:
    e.update({k: v for k, v in given.items() if k != "state"})
  vp.check(set(got[0][1]) == set(e) and all(got[0][1][k] is e[k] or got[0][1][k]
                                            == e[k] for k in e),
           "options of the minimizer %r instead of %r", got[0][1], e)
  n_warn = sum(str(w.message) == "loss warning" for w in rec)
  vp.check((n_warn == 0) if ign else (n_warn > 0), "%d warnings shown", n_warn)
  vp.check(repr(m.get_params()) == before and not hasattr(m, "fitted_"),
           "the model of the user was modified")
  if r is None:
    return case
  model, res = r
  best = min(pts, key=lambda p: res.func_vals[pts.index(p)])
  vp.check(list(res.x) == list(best), "result")
  par = {"a": .25, "b": 1., "c": 2.}
  for k, v in zip(dims, best):
    par["c" if k == "z" else k] = v * 2 if k == "z" else v
  vp.check(model is not m and model.fitted_ == (
      par["a"], par["b"], par["c"], fs, x.tolist(), fit_kws or {}),
           "best model %r", model.fitted_)
  return case


# --- Real minimizer ----------------------------------------------------------------------
def gen_real(tier):
  for s in range(2 if tier == "quick" else 6):
    for d in (("a",), ("b", "z")):
      yield [s, list(d)]


def run_real(case, st):
  seed, dims = case
  o = optimize.SAMPLEOptimizer(model=template(), loss_fn=loss_fn,
                               remap=remapper(dims),
                               **{k: skopt.space.Real(-5, 5) for k in dims})
  x = out(np.arange(6) / 4., 1., -.5, 2.)
  res = None
  for i in range(2):
    cb = optimize.TqdmCallback(o, 4, 2, tqdm_fn=FakeTqdm)
    m, new = o.gp_minimize(x, fs=4, n_calls=4, n_initial_points=2,
                           random_state=seed + i, state=res, callback=cb)
    if res is not None:
      vp.check(new.x_iters[:4] == res.x_iters and
               np.array_equal(new.func_vals[:4], res.func_vals),
               "the state was not continued")
    vp.check(len(new.x_iters) == 4 * (i + 1), "number of evaluations")
    vp.check(new.fun == min(new.func_vals), "best value")
    e = dict(zip(dims, new.x))
    vp.check(m.a == e.get("a", .25) and m.b == e.get("b", 1.) and
             m.c == (e["z"] * 2 if "z" in e else 2.), "best model")
    res = new
    st.traces += 1
  return [round(float(v), 9) for v in res.func_vals]


# --- Progress ------------------------------------------------------------------------------
class FakeTqdm:

  made = []

  def __init__(self, total=None):
    self.total, self.n, self.closed, self.post = total, 0, False, []
    FakeTqdm.made.append(self)

  def update(self, n=1):
    vp.check(not self.closed, "update of a closed bar")
    self.n += n

  def set_postfix_str(self, s, *_, **__):
    vp.check(not self.closed, "postfix of a closed bar")
    self.post.append(s)

  def close(self):
    self.closed = True


OPS = ("call", "reset", "start", "reset_start")


def gen_cb(tier):
  top = 5 if tier == "quick" else 7
  for seq in vp.sequences(OPS, top):
    yield [seq]


def run_cb(case, st):
  ops = case[0]
  o = optimize.SAMPLEOptimizer(a=(0., 1.), b=(0., 1.))
  for n_init in (0, 1, 2):
    for mini in (True, False):
      FakeTqdm.made = []
      cb = optimize.TqdmCallback(o, n_calls=9, n_initial_points=n_init,
                                 tqdm_fn=FakeTqdm, minimum=mini)
      i, started, bars, posts = 0, False, 0, []
      for k, op in enumerate(ops):
        if op == "call":
          if not started:
            started, i, bars, posts = True, 0, bars + 1, []
          i += 1
          cb(OptimizeResult(x=[k, -k], fun=k / 2))
          s = "stage=" + ("randomize" if i <= n_init else "minimize")
          if mini:
            s += ", minimum=(value=%s, params=(a=%s, b=%s))" % (k / 2, k, -k)
          posts.append(s)
        elif op == "reset":
          vp.check(cb.reset() is cb, "reset returns the callback")
          started = False
        elif op == "start":
          vp.check(cb.start() is cb, "start returns the callback")
          started, i, bars, posts = True, 0, bars + 1, []
        else:
          cb.reset().start()
          started, i, bars, posts = True, 0, bars + 1, []
        st.transitions += 1
        vp.check(cb.started == started, "started=%r after %r", cb.started,
                 ops[:k + 1])
        vp.check(cb.i == (i if started else None), "count %r after %r", cb.i,
                 ops[:k + 1])
        vp.check(len(FakeTqdm.made) == bars, "%d bars after %r",
                 len(FakeTqdm.made), ops[:k + 1])
        if bars:
          b = FakeTqdm.made[-1]
          vp.check(b.total == 9, "total")
          if started:
            vp.check(not b.closed and b.n == i and b.post == posts,
                     "bar at %r (%r), expected %r (%r)", b.n, b.post, i, posts)
          elif op == "reset":
            vp.check(b.closed, "bar left open")
      st.states += 1
  return (ops, i)


if __name__ == "__main__":
  vp.main(
      "C17", [("remap", gen_remap, run_remap, {"chunk": 128}),
              ("loss", gen_loss, run_loss, {"chunk": 4}),
              ("minimize", gen_gp, run_gp, {"chunk": 8}),
              ("real_minimizer", gen_real, run_real, {"chunk": 1}),
              ("progress", gen_cb, run_cb, {"chunk": 64})],
      level="exploration",
      rule="every presence and value of the remapped parameters; every "
      "dimension list x audio x option x history of evaluations through the "
      "loss with a scripted model; every fault point of a scripted minimizer; "
      "every sequence of callback operations",
      bounds={
          "quick": "histories of 2 evaluations, 5 callback operations",
          "thorough": "histories of 3 evaluations, 7 callback operations"
      },
      assumptions=["the window of a model without parameters for it is built "
                   "from a default SAMPLE model, as documented"])

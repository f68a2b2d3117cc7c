"""C06: parallel analysis is indistinguishable from serial analysis"""
import itertools

import fakepool
import numpy as np
import vp
from c04_params import LineThrough, ScriptedModel, make_track
from sample import SAMPLE
from sample.beatsdrop import decision, sample as bds
from sklearn import base

NAMES = ("sinusoidal__intermediate", "beat_decisor__intermediate")


class StubBeat(base.BaseEstimator):
  """Beat regression with closed-form results"""

  def __init__(self, fs=44100, fail_above=None):
    self.fs = fs
    self.fail_above = fail_above

  def fit(self, t, a, f, **_):
    f = np.asarray(f)
    if self.fail_above is not None and f[0] > self.fail_above:
      raise fakepool.Fault("task")
    v = float(f[0])
    same = int(v / 100) % 3 == 0
    self.params_ = (float(a[0]), float(a[-1]), v, v if same else v + 7, .5, .25,
                    .125, self.fs / 1e6)
    return self


class StubDecisor(decision.AlmostNotABeatDecisor):
  """Public decision model (amplitudes of the stub are in dB)"""


def build(kind, n, save, fail_above=None):
  ScriptedModel.script = [
      make_track(i % 3, [1, 1, 0, 1] if i % 2 else [1, 1, 1],
                 "f" if i == 2 else "d", 100. * (i + 1), False)
      for i in range(n)
  ]
  kw = dict(sinusoidal=ScriptedModel(w=np.ones(64), n=128, tracker__fs=1000,
                                     tracker__h=50, tracker__reverse=False),
            regressor=LineThrough(), regressor_k="slope",
            regressor_q="level")
  if kind == "beats":
    return bds.SAMPLEBeatsDROP(
        beatsdrop=StubBeat(fail_above=fail_above),
        beat_decisor=StubDecisor(intermediate__save=save),
        sinusoidal__intermediate__save=save, **kw)
  return SAMPLE(sinusoidal__intermediate__save=save, **kw)


class LoggingScripted(ScriptedModel):
  """Scripted analysis which also stores intermediate values"""

  def fit(self, x, y=None, **kwargs):
    fa = kwargs.pop("_fit_args", None)
    self.intermediate.reset()
    super().fit(x, y, **kwargs)
    for i in range(3):
      self.intermediate.append("stft", np.arange(2.0) + i)
      if fa is not None:
        fa.progress_update()
    return self


def build2(*a, **k):
  m = build(*a, **k)
  s = m.sinusoidal
  m.set_params(sinusoidal=LoggingScripted(
      w=s.w, n=s.n, tracker=s.tracker, intermediate=s.intermediate))
  return m


X = np.zeros(3000)


def storages(m):
  p = m.get_params()
  return {k: p[k] for k in NAMES if k in p}


def state(m):
  return repr({
      k: sorted(v.get_state().items()) for k, v in storages(m).items()
  })


def result(m):
  return repr(m.param_matrix_.tolist())


_SERIAL = {}


def serial(kind, n, save):
  k = (kind, n, save)
  if k not in _SERIAL:
    m = build2(kind, n, save).fit(X)
    _SERIAL[k] = (result(m), state(m))
  return _SERIAL[k]


def check_equal(m, ref, before, what):
  vp.check(result(m) == ref[0], "%s: parameters\n%s\ninstead of\n%s", what,
           result(m), ref[0])
  vp.check(state(m) == ref[1], "%s: stored values\n%s\ninstead of\n%s", what,
           state(m), ref[1])
  check_restored(m, before, what)


def check_restored(m, before, what):
  after = storages(m)
  for k, v in before.items():
    vp.check(after[k] is v, "%s: %s was not restored (%r)", what, k, after[k])
  vp.check(m.get_params().keys() == base.clone(m).get_params().keys(),
           "%s: parameters changed", what)


# --- Every completion order and polling answer -------------------------------
def gen_sched(tier):
  for kind in ("plain", "beats"):
    for save in (False, True):
      for n, bound, spurious in ((0, None, 0), (1, None, 2), (2, None, 2),
                                 (3, None, 0), (3, 3, 2),
                                 (4, 3, 1)) if tier == "quick" else (
                                     (0, None, 0), (1, None, 4), (2, None, 3),
                                     (3, None, 1), (4, 5, 1), (5, 4, 1)):
        yield [kind, save, n, bound, spurious]


def run_sched(case, st):
  kind, save, n, bound, spurious = case
  ref = serial(kind, n, save)

  def execute(ch):
    env = fakepool.Env(chooser=ch, spurious=spurious)
    m = build2(kind, n, save)
    before = storages(m)
    m.fit(X, pool=fakepool.Pool(env), mp_manager=fakepool.Manager(env))
    check_equal(m, ref, before, "completion order %r" % (env.order,))
    return tuple(env.order)

  first = None
  for ch, order in vp.explore_choices(execute, bound=bound):
    st.outcome((kind, save, order))
    st.count("schedules")
    if first is None:
      first = ch.points
      # the same choices reproduce the same execution
      ch2 = vp.Chooser(ch.choices)
      execute(ch2)
      if ch2.points != ch.points:
        raise vp.Divergence("nondeterministic execution")
  fakepool._SHARED.clear()


# --- A failure at every call that leaves the process -------------------------
def gen_fault(tier):
  for kind in ("plain", "beats"):
    for save in (False, True):
      for n in (1, 3) if tier == "quick" else (1, 2, 3, 5):
        yield [kind, save, n]


def run_fault(case, st):
  kind, save, n = case
  ref = serial(kind, n, save)
  env = fakepool.Env()
  m = build2(kind, n, save)
  m.fit(X, pool=fakepool.Pool(env), mp_manager=fakepool.Manager(env))
  calls = env.calls
  for prior in (False, True):
    for k in range(len(calls)):
      env = fakepool.Env(fault_at=k)
      m = build2(kind, n, save)
      if prior:
        m.fit(X)
      before = storages(m)
      what = "failure of call %d (%s)" % (k, calls[k])
      vp.check_raises(
          fakepool.Fault, lambda: m.fit(X,
                                        pool=fakepool.Pool(env),
                                        mp_manager=fakepool.Manager(env)),
          what)
      check_restored(m, before, what)
      # the model is still usable, in both ways
      for parallel in (False, True, False):
        env = fakepool.Env()
        m.fit(X,
              **({
                  "pool": fakepool.Pool(env),
                  "mp_manager": fakepool.Manager(env)
              } if parallel else {}))
        check_equal(m, ref, before, what + ", then fitting again")
      st.count("faults")
      st.outcome((kind, save, n, calls[k], k))
  fakepool._SHARED.clear()


# --- Failing tasks and progress callbacks ------------------------------------
def gen_task(tier):
  for save in (False, True):
    for n in (1, 2, 3, 4):
      for k in range(n):
        for perm in itertools.permutations(range(n)):
          yield [save, n, k, list(perm)]


def run_task(case, st):
  """Tasks from the k-th on fail, for each completion order"""
  save, n, k, perm = case
  pend = list(range(n))
  choices = []
  m = build2("beats", n, save, fail_above=100. * (k + 1) - 1)
  before = storages(m)

  class Order:

    def __call__(self, n_, label=""):
      if label != "complete":
        return 0
      c = pend.index(perm[len(choices)])
      choices.append(c)
      pend.pop(c)
      return c

  env = fakepool.Env(chooser=Order())
  vp.check_raises(
      fakepool.Fault, lambda: m.fit(X,
                                    pool=fakepool.Pool(env),
                                    mp_manager=fakepool.Manager(env)),
      "failing task")
  check_restored(m, before, "failing task")
  m.set_params(beatsdrop__fail_above=None)
  m.fit(X)
  check_equal(m, serial("beats", n, save), before, "fit after a failed task")
  fakepool._SHARED.clear()
  return (save, n, k, tuple(perm))


# --- Repeated fits, alternating serial and parallel --------------------------
def gen_refit(tier):
  kinds = [(p, n) for p in (0, 1) for n in (0, 1, 3)]
  for kind in ("plain", "beats"):
    for save in (False, True):
      for s in itertools.product(kinds,
                                 repeat=3 if tier == "quick" else 4):
        yield [kind, save, s]


def run_refit(case, st):
  kind, save, seq = case
  m = build2(kind, 0, save)
  before = storages(m)
  for i, (p, n) in enumerate(seq):
    ref = serial(kind, n, save)
    build(kind, n, save)  # scripts n tracks
    env = fakepool.Env()
    m.fit(X,
          **({
              "pool": fakepool.Pool(env),
              "mp_manager": fakepool.Manager(env)
          } if p else {}))
    check_equal(m, ref, before, "fit %d of %r" % (i, seq))
    st.outcome((kind, save, seq[:i + 1]))
  fakepool._SHARED.clear()


# --- Many tracks ------------------------------------------------------------------
def gen_many(tier):
  for n in (8, 17, 33, 64, 65, 100, 129, 257) + (() if tier == "quick" else
                                                 (513, 1025)):
    for kind in ("plain", "beats"):
      for save in (False, True):
        for order in ("first", "last", "middle"):
          yield [n, kind, save, order]


class Pick:
  """Completes the first, last or middle pending task"""

  def __init__(self, order):
    self.order = order

  def __call__(self, n, label=""):
    if label != "complete":
      return 0
    return {"first": 0, "last": n - 1, "middle": n // 2}[self.order]


def run_many(case, st):
  n, kind, save, order = case
  ref = serial(kind, n, save)
  env = fakepool.Env(chooser=Pick(order))
  m = build2(kind, n, save)
  before = storages(m)
  m.fit(X, pool=fakepool.Pool(env), mp_manager=fakepool.Manager(env))
  check_equal(m, ref, before, "%d tracks" % n)
  fakepool._SHARED.clear()
  st.count("tracks", n)
  return case


# --- Real processes ----------------------------------------------------------
def gen_real(tier):
  yield "beats"
  if tier != "quick":
    yield "plain"


def run_real(case, st):
  """The same driver on real pools and managers"""
  import multiprocessing as mp
  from sample import _training
  for n, save in ((3, True), (2, False)):
    ref = serial(case, n, save)
    m = build2(case, n, save)
    before = storages(m)
    m.fit(X, n_jobs=2)
    check_equal(m, ref, before, "n_jobs=2")
    with mp.get_context("fork").Pool(2) as p:
      m.fit(X, pool=p)
      check_equal(m, ref, before, "given pool")
      m.fit(X, n_jobs=0)
      check_equal(m, ref, before, "serial again")
    m.fit(X, n_jobs=1)
    check_equal(m, ref, before, "n_jobs=1")
    st.outcome((case, n, save))


if __name__ == "__main__":
  vp.main(
      "C06", [("real", gen_real, run_real, {"serial": True}),
              ("schedules", gen_sched, run_sched, {"chunk": 1}),
              ("faults", gen_fault, run_fault, {"chunk": 1}),
              ("task_failures", gen_task, run_task, {"chunk": 16}),
              ("refit", gen_refit, run_refit, {"chunk": 16}),
              ("many tracks", gen_many, run_many, {"chunk": 1})],
      level="fault_enumeration",
      rule="fit runs on a pool and a storage manager whose every answer is "
      "scheduled: all completion orders and poll answers (deviation bounded), "
      "a failure at each call that leaves the process, failing tasks in every "
      "completion order, sequences of serial and parallel fits; an outcome is "
      "a completion order, fault point or history",
      bounds={
          "quick": "<=3 tracks without deviation bound, 3 and 4 tracks with "
                   "<=3 deviations and <=2 spurious wake-ups; every single "
                   "fault; histories of 3 fits",
          "thorough": "4 tracks with <=5 and 5 tracks with <=4 deviations; "
                      "histories of 4 fits"
      },
      assumptions=["workers are modelled as running each task atomically on "
                   "pickled arguments; real pools are exercised on 3 fits"])

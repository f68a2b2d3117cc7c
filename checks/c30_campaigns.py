"""C30: interrupted evaluations and benchmarks resume to the complete results"""
import collections
import contextlib
import csv
import importlib.util
import io
import itertools
import json
import logging
import math
import multiprocessing
import os
import shutil
import tempfile
from unittest import mock

import numpy as np
import pandas as pd
import vp
from crash import crash_states, disk, restore
from matplotlib import pyplot as plt
from sample import SAMPLE
from sample.beatsdrop import sample as bd_sample
from sample.beatsdrop.sample import SAMPLEBeatsDROP
from scipy.io import wavfile


def load(*path):
  p = os.path.join(vp.REPO, "scripts", *path)
  spec = importlib.util.spec_from_file_location("vp_" + path[-1][:-3], p)
  m = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(m)
  return m


ev = load("beatsdrop", "evaluation.py")
perf = load("cim22", "performance.py")


class Kill(BaseException):
  """The process dies"""


@contextlib.contextmanager
def scratch():
  old = os.getcwd()
  d = tempfile.mkdtemp(prefix="vp_c30_")
  os.chdir(d)
  try:
    yield d
  finally:
    os.chdir(old)
    shutil.rmtree(d)


# --- Controlled environment of the evaluation -------------------------------------------
MODES = {
    "eval": ([], "BeatsDROPEvalResult", "beatsdrop_eval_result_fields"),
    "decision": (["--test-decision"], "BeatsDROPDecisionResult",
                 "beatsdrop_decision_result_fields"),
    "fft": (["--test-fft", "10"], "BeatsDROPFFTResult",
            "beatsdrop_fft_result_fields"),
}


def value(mode, seed, j, k):
  if k == "seed":
    return seed
  if mode == "decision" and k in ("beat", "single"):
    return (seed * 5 + j) % 3 == 0
  if k == "count":
    return seed % 4
  return math.sqrt(seed * 31 + j + 2) * 10**(j % 5 - 2)


class Tests:
  """Test cases with known results"""

  def __init__(self, mode, fail=()):
    self.mode = mode
    self.fail = fail
    self.calls = []

  def __call__(self, seed, *args, log_path=None, wav_path=None, **kw):
    self.calls.append(int(seed))
    if wav_path is not None:
      with open(wav_path.format(seed), mode="w", encoding="utf-8") as f:
        f.write("wav %d" % seed)
    if seed in self.fail:
      return None
    fields = getattr(ev, MODES[self.mode][2])
    return getattr(ev, MODES[self.mode][1])(
        **{k: value(self.mode, seed, j, k) for j, k in enumerate(fields)})


class Pool:
  """Pool that runs tasks in a given order, and dies after some"""

  def __init__(self, order, stop):
    self.order = order
    self.stop = stop

  def __call__(self, *args, **kwargs):
    return self

  def __enter__(self):
    return self

  def __exit__(self, *a):
    pass

  def close(self):
    pass

  terminate = join = close

  def imap_unordered(self, func, it, *a, **k):
    todo = list(it)
    if self.order == "lifo":
      todo.reverse()
    elif self.order == "inner":
      todo = todo[len(todo) // 2:] + todo[:len(todo) // 2]
    for i, s in enumerate(todo):
      r = func(s)
      if self.stop is not None and i == self.stop:
        raise Kill()
      yield r

  def imap(self, func, it, *a, **k):
    return map(func, it)

  def map(self, func, it, *a, **k):
    return list(map(func, it))


def evaluate(mode, argv, order="fifo", stop=None, fail=(), report=None):
  """Run the script: (calls, namespace given to the report)"""
  t = Tests(mode, fail)
  got = []

  def rep(args):
    got.append(args)
    return args

  pool = Pool(order, stop)
  with contextlib.ExitStack() as es:
    for n in ("test_case", "test_case_decision", "test_case_fft"):
      es.enter_context(mock.patch.object(ev, n, t))
    for n in ("statistical_tests", "decision_report", "fft_report"):
      es.enter_context(mock.patch.object(ev, n, report or rep))
    es.enter_context(mock.patch.object(multiprocessing, "Pool", pool))
    es.enter_context(
        mock.patch.object(multiprocessing.context.BaseContext, "Pool", pool))
    es.enter_context(contextlib.redirect_stderr(io.StringIO()))
    try:
      ev.main(*argv, "-l", "CRITICAL", *MODES[mode][0])
    except Kill:
      return t.calls, None
  return t.calls, got


def rows(path, mode):
  """Seeds of a file of results; every row has to be complete"""
  with open(path, encoding="utf-8", newline="") as f:
    tab = list(csv.DictReader(f))
  fields = getattr(ev, MODES[mode][2])
  out = []
  for r in tab:
    seed = int(float(r["seed"]))
    for j, k in enumerate(fields):
      e = value(mode, seed, j, k)
      g = r[k]
      vp.check(g not in (None, ""), "missing %s of seed %d in %s", k, seed, path)
      if isinstance(e, bool):
        vp.check(g in ("True", "False") and (g == "True") == e or g not in (
            "True", "False") and float(g) == e, "%s of seed %d is %s instead of "
                 "%s in %s", k, seed, g, e, path)
      else:
        vp.check(abs(float(g) - e) <= 1e-12 * abs(e), "%s of seed %d is %s "
                 "instead of %r in %s", k, seed, g, e, path)
    out.append(seed)
  vp.check(len(set(out)) == len(out), "repeated results in %s: %r", path, out)
  return out


def checkpoints(base):
  d = os.path.dirname(base) or "."
  n = os.path.basename(base) + ".ckpt-"
  return {int(f[len(n):]): os.path.join(d, f) for f in os.listdir(d)
          if f.startswith(n) and f[len(n):].isdigit()} if os.path.isdir(
              d) else {}


# --- Histories of runs -------------------------------------------------------------------
RUNS = [dict(n=n, ckpt=c, stop=s, fail=f)
        for n in (3, 5) for c in (None, 1, 2) for s in (None, 2)
        for f in ([], [1])]
BASES = ["a/b/ev", "ev", "run [1]{0}/ev*"]


def gen_hist(tier):
  # many checkpoints
  for i, (n, stop) in enumerate(((13, 11), (13, 12), (24, 21), (112, 103))):
    for fail in ([], [1, 9]):
      r = dict(n=n, ckpt=1, stop=stop, fail=fail, resume=True, wav=False)
      yield [list(MODES)[i % 3], BASES[i % 3], "fifo", [r, dict(r, stop=None)]]
  mid = [dict(r, resume=True, wav=w) for r in RUNS
         for w in ((False, True) if r["ckpt"] != 1 else (False,))]
  mid += [dict(n=5, ckpt=c, stop=None, fail=[], resume=False, wav=False)
          for c in (None, 2)]
  i = 0
  for a in RUNS:
    for b in mid:
      if b["n"] >= a["n"] and (b["resume"] or a["stop"] is None):
        for c in [()] if tier == "quick" else mid[::3]:
          seq = [dict(a, resume=True, wav=b["wav"]), b] + ([c] if c else [])
          if c and (c["n"] < b["n"] or not c["resume"]):
            continue
          i += 1
          yield [list(MODES)[i % 3], BASES[i % 5 % 3],
                 ["fifo", "lifo", "inner"][i % 7 % 3], seq]


def run_hist(case, st):
  mode, base, order, seq = case
  with scratch():
    saved, ck = set(), None
    out = []
    last = dict(seq[-1], stop=None, fail=[], ckpt=None, resume=True)
    total = max(7, seq[-1]["n"])
    for r in seq + [last, dict(last, n=total)]:
      argv = ["-O", base, "-n", str(r["n"]), "-j", "2"]
      if r["ckpt"] is not None:
        argv += ["--checkpoint", str(r["ckpt"])]
      if not r["resume"]:
        argv += ["--no-resume"]
      if r["wav"]:
        argv += ["--wav", "dataset/w"]
      if r["fail"]:
        argv += ["--log-exception", "logs"]
      known = (saved if ck is None else ck) if r["resume"] else set()
      todo = [s for s in range(r["n"]) if s not in known or r["wav"] and
              not os.path.exists("dataset/w/%d.wav" % s)]
      calls, got = evaluate(mode, argv, order, r["stop"], r["fail"])
      results = set(known)
      # the tests which have not been done yet, each once
      if got is not None:
        vp.check(sorted(calls) == todo, "tests done %r instead of %r (%r)",
                 sorted(calls), todo, r)
      else:
        vp.check(set(calls) <= set(todo) and len(set(calls)) == len(calls),
                 "tests done %r, of %r (%r)", calls, todo, r)
      for i, s in enumerate(calls):
        if got is None and i == r["stop"]:
          break
        if s not in r["fail"]:
          results.add(s)
        if r["ckpt"] is not None and (i + 1) % r["ckpt"] == 0:
          ck = set(results)
      files = checkpoints(base)
      if got is not None:
        ck, saved = None, results
        vp.check(len(got) == 1, "%d reports", len(got))
        vp.check(not files, "checkpoints left: %r", sorted(files))
        f = sorted(rows(base + ".csv", mode))
        vp.check(f == sorted(saved), "results of %r saved instead of %r", f,
                 sorted(saved))
        df = got[0].df
        vp.check(sorted(map(int, df["seed"])) == sorted(saved),
                 "results of %r reported instead of %r", list(df["seed"]),
                 sorted(saved))
        for _, row in df.iterrows():
          for j, k in enumerate(getattr(ev, MODES[mode][2])):
            e = value(mode, int(row["seed"]), j, k)
            vp.check(abs(float(row[k]) - e) <= 1e-12 * abs(e),
                     "%s of seed %d is %r in the report instead of %r", k,
                     row["seed"], row[k], e)
      else:
        for f in files.values():
          rows(f, mode)
        if ck is not None:
          f = set(rows(files[max(files)], mode)) if files else None
          vp.check(f == ck, "last checkpoint has %r instead of %r", f, ck)
        if os.path.exists(base + ".csv"):
          vp.check(set(rows(base + ".csv", mode)) == saved,
                   "saved results changed by an interrupted run")
      if r["wav"] and got is not None:
        vp.check(all(
            os.path.exists("dataset/w/%d.wav" % s) for s in range(r["n"])),
                 "missing WAV files")
      out.append((sorted(saved), None if ck is None else sorted(ck)))
      st.transitions += 1
    vp.check(saved == set(range(total)), "results of %r at the end", saved)
    st.traces += 1
    st.states += len(out)
  return (mode, base, order, out)


# --- Crash points of the evaluation ------------------------------------------------------
def gen_crash(tier):
  for mode in MODES:
    for ckpt in (None, 1, 2):
      for start in ("empty", "csv", "ckpt"):
        for resume in (True, False):
          if resume or start != "ckpt":
            for order in ("fifo", "lifo") if tier != "quick" or ckpt == 2 else (
                "lifo",):
              yield [mode, ckpt, start, resume, order]


def run_crash(case, st):
  """A run killed at any point, then a complete one"""
  mode, ckpt, start, resume, order = case
  n = 4
  argv = ["-O", "o/ev", "-n", str(n)]
  opts = ([] if ckpt is None else ["--checkpoint", str(ckpt)
                                  ]) + ([] if resume else ["--no-resume"])
  with scratch() as d:
    if start != "empty":
      evaluate(mode, ["-O", "o/ev", "-n", "2"] +
               (["--checkpoint", "1"] if start == "ckpt" else []),
               stop=1 if start == "ckpt" else None)
    states = crash_states(
        lambda: evaluate(mode, argv + opts, order), d, st, full=False)
  seen = set()
  for s in states:
    key = repr(sorted((k, v and v[1]) for k, v in s.items()))
    if key in seen:
      continue
    seen.add(key)
    for again in ([], ["--checkpoint", "3"]):
      with scratch() as d:
        restore(s, d)
        intact = {}
        try:
          calls, got = evaluate(mode, argv + again)
        except vp.Violation:
          raise
        except Exception as e:
          raise vp.Violation("run after a crash that left %s: %r" % (
              sorted(s), e)) from e
        vp.check(len(got) == 1 and set(calls) <= set(range(n)) and
                 len(set(calls)) == len(calls), "tests %r after a crash", calls)
        f = sorted(rows("o/ev.csv", mode))
        vp.check(f == list(range(n)), "results of %r after a crash that left "
                 "%s", f, sorted(s))
        vp.check(not checkpoints("o/ev"), "checkpoints left")
        # saved results have not been lost
        if resume and start == "csv":
          vp.check(not {0, 1} & set(calls), "results lost by a crash that left "
                   "%s: %r done again", sorted(s), calls)
        if resume and start == "ckpt":
          vp.check(0 not in calls, "checkpoint lost by a crash that left %s",
                   sorted(s))
        st.outcome((case, sorted(s), calls))
    st.count("states")
    st.states += 1
  st.traces += 1


# --- Context of a test ---------------------------------------------------------------------
def gen_ctx(tier):
  yield from ([list(c)] for c in itertools.product(
      (0, 3), (True, False), (True, False), (True, False),
      (None, "error", "exit")))


def run_ctx(case, st):
  seed, only, wav, log, exc = case[0]
  from sample.evaluation import random
  from sample.beatsdrop import regression
  x, fs, (f, d, a, p) = random.BeatsGenerator(seed=seed, onlybeat=only).audio()
  with scratch():
    os.mkdir("w")
    kw = dict(seed=seed, onlybeat=only,
              wav_path=os.path.join("w", "{:.0f}.wav") if wav else None,
              log_path=os.path.join("l", "{:.0f}.log") if log else None)
    got = []

    def use():
      with ev.test_case_context(**kw) as (outs, truth):
        got.append((outs, truth))
        if exc == "error":
          raise ValueError("failed test")
        if exc == "exit":
          raise KeyboardInterrupt()

    ev.logger.setLevel(logging.CRITICAL)
    if exc == "exit":
      vp.check_raises(KeyboardInterrupt, use, "interruption")
    elif exc == "error" and not log:
      vp.check_raises(ValueError, use, "failed test")
    else:
      use()
    (y, gs, _), truth = got[0]
    vp.check(np.array_equal(y, x) and gs == fs, "sound of the test")
    e = dict(zip(("a0", "a1", "f0", "f1", "d0", "d1", "p0", "p1"),
                 regression.sort_params((a[0], a[1], f[0], f[1], d[0], d[1],
                                         p[0], p[1]))))
    vp.check(e["d0"] * e["a0"]**2 <= e["d1"] * e["a1"]**2 or
             e["d0"] * e["a0"]**2 >= e["d1"] * e["a1"]**2, "order")
    if not only:
      e.update(f2=f[2], d2=d[2], a2=a[2], p2=p[2])
    vp.check(truth == e, "ground truth %r instead of %r", truth, e)
    if wav:
      r, z = wavfile.read("w/%d.wav" % seed)
      vp.check(r == fs and np.array_equal(z, x), "WAV file")
    if exc == "error" and log:
      with open("l/%d.log" % seed, encoding="utf-8") as fl:
        s = fl.read()
      vp.check(s.startswith("Seed: %d\n" % seed) and "failed test" in s and
               "Traceback" in s, "log %r", s)
      j = json.loads(s[s.index("{"):s.rindex("}") + 1].split("\n}")[0] + "\n}")
      vp.check(j == e, "ground truth in the log %r", j)
    else:
      vp.check(not os.path.exists("l"), "log written")
  return (case, sorted(e))


# --- Real tests ---------------------------------------------------------------------------
def gen_real(tier):
  for k in range(1 if tier == "quick" else 4):
    for mode in MODES:
      yield [mode, 7 + k]


def run_real(case, st):
  """The real test cases give results for the seed in the documented order"""
  mode, seed = case
  from sample.evaluation import random
  from sample.beatsdrop import regression
  ev.logger.setLevel(logging.CRITICAL)
  before = repr(ev.base_model.get_params())
  fn = {"eval": ev.test_case, "decision": ev.test_case_decision,
        "fft": lambda seed: ev.test_case_fft(seed=seed, n=1 << 12)}[mode]
  r = fn(seed=seed)
  vp.check(repr(ev.base_model.get_params()) == before and not hasattr(
      ev.base_model, "param_matrix_"), "the base model changed")
  _, _, (f, d, a, p) = random.BeatsGenerator(
      seed=seed, onlybeat=mode != "decision").audio()
  e = dict(zip(ev.beat_param_names,
               regression.sort_params((a[0], a[1], f[0], f[1], d[0], d[1], p[0],
                                       p[1]))))
  vp.check(r.seed == seed, "seed %r", r.seed)
  vp.check({k: getattr(r, k) for k in e} == e, "ground truth")

  def energies(pre, post=""):
    return [getattr(r, pre + "d%d" % i + post) *
            getattr(r, pre + "a%d" % i + post)**2 for i in range(2)]

  true = [e["d%d" % i] * e["a%d" % i]**2 for i in range(2)]
  up = true[0] <= true[1]
  if mode == "eval":
    for pre in ("br_", "dbr_"):
      u, v = energies(pre)
      vp.check(u <= v if up else u >= v, "order of the estimated partials")
      for k in ("f0", "f1"):
        vp.check(abs(getattr(r, pre + k) / e[k] - 1) < .2, "%s%s is %s instead "
                 "of %s", pre, k, getattr(r, pre + k), e[k])
  elif mode == "fft":
    u, v = energies("", "_hat")
    vp.check(u <= v if up else u >= v, "order of the estimated partials")
    vp.check(r.count >= 1 and abs(r.f0_hat / e["f0"] - 1) < .2, "frequency")
  else:
    vp.check(r.beat in (True, False) and r.single in (True, False), "decisions")
    vp.check(r.f2 == f[2] and r.d2 == d[2], "third partial")
  vp.check(repr(fn(seed=seed)) == repr(r), "the same test gives two results")
  return (case, [round(float(v), 3) for v in e.values()])


# --- Tests of known models ------------------------------------------------------------------
def gen_found(tier):
  # modes found, in the test of the FFT size
  yield from (["fft", k, o] for k in range(4)
              for o in itertools.permutations(range(k)))
  # frequencies of the tracks: at the beat, at the third partial, or elsewhere
  n = 3 if tier == "quick" else 4
  for k in range(1, n + 1):
    for w in itertools.product("bso", repeat=k):
      if len(set(w)) == k or "o" in w and len(set(w)) == k - w.count("o") + 1:
        for gap in range(-1, k):
          for d in itertools.product((False, True), repeat=k):
            yield ["decision", "".join(w), gap, list(d)]
  yield from (["eval", k, i, g] for k in (1, 2, 3) for i in range(k)
              for g in (False, True))


def _set_tracks(s, tracks):
  s.sinusoidal.tracker.reset()
  s.sinusoidal.tracker.tracks_ = tracks


class Known(SAMPLE):
  """Model whose analysis is known"""

  def fit(self, x, y=None, **kwargs):
    self.set_params(**kwargs)
    Known.fits.append((x, self))
    self.param_matrix_ = np.reshape(np.array(Known.modes, dtype=float).T,
                                    (3, -1))
    _set_tracks(self, Known.tracks)
    return self


class KnownBeats(SAMPLEBeatsDROP):
  """Model whose decisions are known"""

  def fit(self, x, y=None, **kwargs):
    self.set_params(**kwargs)
    Known.fits.append((x, self))
    _set_tracks(self, Known.tracks)
    self.beat_decisor.intermediate.reset()
    for i, d in enumerate(Known.decisions):
      self.beat_decisor.intermediate.append("decision", d, index=i)
    self.param_matrix_ = np.zeros((4, len(Known.decisions)))
    return self


def _track(f, gap=False, mag=-20., n=20):
  f = f + np.linspace(-.1, .1, n)
  m = np.linspace(mag - 20, mag, n)  # in reverse
  if gap:
    f[n // 2], m[n // 2] = np.nan, np.nan
  return {"start_frame": 0, "freq": f, "mag": m, "phase": np.zeros(n)}


def run_found(case, st):
  """Results hold what has been found by the models"""
  from sample.evaluation import random
  from sample.beatsdrop import regression
  ev.logger.setLevel(logging.CRITICAL)
  mode, seed = case[0], 5
  x, fs, (f, d_, a_, p_) = random.BeatsGenerator(
      seed=seed, onlybeat=mode != "decision").audio()
  truth = dict(
      zip(("a0", "a1", "f0", "f1", "d0", "d1", "p0", "p1"),
          regression.sort_params(
              (*a_[:2], *f[:2], *d_[:2], *p_[:2]))))
  if mode == "decision":
    truth.update(f2=f[2], d2=d_[2], a2=a_[2], p2=p_[2])

  def of_the_sound(r):
    vp.check(r.seed == seed, "seed %r", r.seed)
    vp.check({k: getattr(r, k) for k in truth} == truth,
             "%r instead of the true parameters, %r", r, truth)
    for y, m in Known.fits:
      vp.check(y is not None and np.array_equal(y, x), "another sound")
      vp.check(m.sinusoidal.tracker.fs == fs, "fitted at %r Hz, not at %r",
               m.sinusoidal.tracker.fs, fs)

  base = Known(**ev.base_model.get_params())
  Known.fits = []
  with contextlib.ExitStack() as es:
    es.enter_context(mock.patch.object(ev, "base_model", base))
    es.enter_context(
        mock.patch.object(bd_sample, "SAMPLEBeatsDROP", KnownBeats))
    if mode == "fft":
      _, k, o = case
      Known.modes = [(300. + 10 * i, .1 + .2 * i, .5 + .25 * i) for i in o]
      Known.tracks = [_track(300. + 10 * i) for i in o]
      r = ev.test_case_fft(seed=seed, n=1 << 12)
      if not Known.fits:
        return "not used"  # the model comes from elsewhere
      of_the_sound(r)
      got = [(getattr(r, "f%d_hat" % i), getattr(r, "d%d_hat" % i),
              getattr(r, "a%d_hat" % i)) for i in range(2)]
      if k == 0:
        e = [(0., 0., 0.)] * 2
      elif k == 1:  # the amplitude is that of both
        e = [(300., .1, .25)] * 2
      else:
        e = Known.modes[:2] if k == 2 else Known.modes
      vp.check(r.count == k, "%r modes found instead of %d", r.count, k)
      vp.check(k == 3 or sorted(got) == sorted(e), "%r found instead of %r",
               got, e)
      vp.check(all(x in e for x in got) and (k < 2 or got[0] != got[1]),
               "%r not found, but %r", got, e)
      u, v = (x[1] * x[2]**2 for x in got)
      t = [getattr(r, "d%d" % i) * getattr(r, "a%d" % i)**2 for i in range(2)]
      vp.check(u == v or (u < v) == (t[0] < t[1]), "order of the partials")
    elif mode == "decision":
      _, w, gap, d = case
      at = {"b": (f[0] + f[1]) / 2, "s": f[2], "o": 3 * f[2] + 40}
      fr = [at[c] + 1 + (c == "o") * 50 * i for i, c in enumerate(w)]
      Known.decisions = d
      Known.tracks = [_track(x, i == gap) for i, x in enumerate(fr)]
      r = ev.test_case_decision(seed=seed)
      if not Known.fits:
        return "not used"
      of_the_sound(r)
      for k, c in (("beat", "b"), ("single", "s")):
        i = min(range(len(fr)), key=lambda j: abs(fr[j] - at[c]))  # pylint: disable=W0640
        vp.check(getattr(r, k) == d[i], "%s: the decision is not that of the "
                 "track nearest to %s Hz, among %r (gaps in %d)", k, at[c], fr,
                 gap)
    else:
      _, k, i, g = case
      got = []

      class Fit:
        """Regression that records its input"""

        def fit(self, t, a, f):
          got.append((np.array(t), np.array(a), np.array(f)))
          self.params_ = (1. + g, 1.5, 200., 201., 1., 1., .1, .2)
          return self

      Known.modes = [(300. + 10 * j, .3, 1. if j == i else .5)
                     for j in range(k)]
      Known.tracks = [_track(300. + 10 * j, g) for j in range(k)]
      for n in ("BeatRegression", "DualBeatRegression"):
        es.enter_context(mock.patch.object(regression, n, Fit))
      r = ev.test_case(seed=seed)
      if not Known.fits:
        return "not used"
      of_the_sound(r)
      tr = _track(300. + 10 * i, g)
      ok = np.isfinite(tr["mag"][::-1])
      s = SAMPLE(**ev.base_model.get_params())
      t = np.arange(ok.size) * s.sinusoidal.h / 44100
      e = (1., 1.5, 200., 201., 1., 1., .1, .2)
      if g:
        e = (1.5, 2., 201., 200., 1., 1., .2, .1)
      for pre in ("br_", "dbr_"):
        h = tuple(getattr(r, pre + v + j) for v in "afdp" for j in "01")
        vp.check(h == e, "%s: %r instead of %r", pre, h, e)
      for a, b, c in got:
        vp.check_close(a, t[ok], "time")
        vp.check_close(b, tr["mag"][::-1][ok] + 6, "amplitude")
        vp.check_close(c, tr["freq"][::-1][ok], "frequency")
  return repr(case)


# --- Reports --------------------------------------------------------------------------------
def gen_rep(tier):
  yield from ([k, list(c)] for k in ("eval", "fft", "decision")
              for c in itertools.product(("complete", "killed", "noresume",
                                          "more", "failed"),
                                         repeat=2 if k == "eval" else 1))


class Rank:
  """Result of the statistical tests of known data"""

  def __init__(self, **kw):
    self.data = np.array(kw["data"])
    self.kw = {k: v for k, v in kw.items() if k != "data"}


class Tree:
  """Classifier whose importances identify its data"""

  def __init__(self, **kw):
    pass

  def fit(self, x, y):
    self.feature_names_in_ = list(x.columns)
    s = float(np.sum(np.asarray(y, dtype=float))) + len(y) * 100
    self.feature_importances_ = np.array(
        [s + i / 100 for i in range(x.shape[1])])
    return self


def check_errors(df, how):
  """The report is that of the results"""
  with open("o/ev_report.tex", encoding="utf-8") as f:
    got = np.array(eval(f.read()))
  vp.check(got.shape == (len(df), 12), "report of %r for %d results (%s)",
           got.shape, len(df), how)
  from sample import psycho
  for i, (v, m) in enumerate(itertools.product(
      ("f0", "f1", "a0", "a1", "d0", "d1"), ("br", "dbr"))):
    x, y = np.array(df[v]), np.array(df["%s_%s" % (m, v)])
    if v[0] == "f":
      x, y = psycho.hz2mel(x), psycho.hz2mel(y)
    elif v[0] == "a":
      x, y = 20 * np.log10(x), 20 * np.log10(y)
    vp.check_close(got[:, i], abs(x - y), "errors of %s with %s" % (v, m))


def gen_repcrash(tier):
  yield from ([a, b] for a in ("empty", "csv", "killed")
              for b in ([], ["--no-resume"]))


def run_repcrash(case, st):
  """A run killed at any point, its report included"""
  start, opts = case
  got = []
  real = ev.statistical_tests

  def report(args):
    got.append(args)
    return real(args)

  def kill(args):
    raise Kill()

  with contextlib.ExitStack() as es:
    es.enter_context(mock.patch.object(ev.autorank, "autorank",
                                       lambda **k: Rank(**k)))
    es.enter_context(mock.patch.object(ev, "print_report",
                                       lambda r: print(r.data.tolist())))
    argv = ["-O", "o/ev", "-n", "4", "--checkpoint", "3"]
    with scratch() as d:
      if start != "empty":
        evaluate("eval", ["-O", "o/ev", "-n", "2"], report=report)
      if start == "killed":
        evaluate("eval", ["-O", "o/ev", "-n", "4"], report=kill)
      states = crash_states(
          lambda: evaluate("eval", argv + opts, report=report), d, st,
          full=False)
    seen = set()
    for s in states:
      key = repr(sorted((k, v and v[1]) for k, v in s.items()))
      if key in seen:
        continue
      seen.add(key)
      with scratch() as d:
        restore(s, d)
        try:
          evaluate("eval", argv[:4], report=report)
        except Exception as e:
          raise vp.Violation("run after a crash that left %s: %r" % (
              sorted(s), e)) from e
        vp.check(sorted(rows("o/ev.csv", "eval")) == [0, 1, 2, 3], "results")
        check_errors(got[-1].df, "after a crash that left %s" % sorted(s))
        st.outcome((case, sorted(s)))
      st.states += 1
    st.traces += 1


def run_rep(case, st):
  """Reports always describe the saved results"""
  mode, seq = case
  n = 20 if mode == "decision" else 4
  printed = []
  real = {"eval": ev.statistical_tests, "fft": ev.fft_report,
          "decision": ev.decision_report}[mode]
  dying = []

  def report(args):
    if dying:
      raise Kill()
    real(args)
    printed.append(args)
    return args

  with scratch(), contextlib.ExitStack() as es:
    es.enter_context(mock.patch.object(ev.autorank, "autorank",
                                       lambda **k: Rank(**k)))
    es.enter_context(mock.patch.object(ev, "print_report",
                                       lambda r: print(r.data.tolist())))
    es.enter_context(mock.patch("sklearn.tree.DecisionTreeClassifier", Tree))
    es.enter_context(mock.patch.object(plt, "savefig"))
    for how in seq + ["complete"]:
      argv = ["-O", "o/ev", "-n", str(n)]
      dying[:] = [1] * (how == "killed")
      fail = ()
      if how in ("more", "killed"):
        n += 2
        argv[-1] = str(n)
      elif how == "noresume":
        argv += ["--no-resume"]
      elif how == "failed":
        n += 1
        fail = (n - 1,)
        argv[-1] = str(n)
      evaluate(mode, argv, fail=fail, report=report)
      if how == "killed":
        continue
      args = printed[-1]
      k = args.df.shape[0]
      if mode == "eval":
        check_errors(args.df, how)
      elif mode == "fft":
        with open("o/ev_report.txt", encoding="utf-8") as f:
          got = f.read()
        c = sum(int(v) >= 2 for v in args.df["count"])
        e = "Detected at least two tracks in %d/%d cases (%.2f%%)" % (
            c, k, c * 100 / k)
        vp.check(got.startswith(e) and "1024" in got, "report %r", got)
      else:
        imp = pd.read_csv("o/ev_errors_feature_importance.csv")
        vp.check(len(imp) == 2048 and list(imp["target"][:4]) == [
            "beat", "single"] * 2, "importances of %d fits", len(imp))
        for t in ("beat", "single"):
          w = imp[imp["target"] == t]
          tot = sum(args.df[t])
          lo = k - math.ceil(k / 16)
          s = np.array(w["seed"])
          cnt, ones = s // 100, s % 100
          vp.check(np.all((cnt >= lo) & (cnt <= k - k // 16)), "importances of "
                   "%s for another number of results (%s): %r", t, how,
                   sorted(set(cnt)))
          vp.check(np.all((ones <= tot) & (ones >= tot - math.ceil(k / 16))),
                   "importances of %s", t)
        with open("o/ev_report.txt", encoding="utf-8") as f:
          got = f.read().split()
        vp.check(str(2 * k) in got, "classification report %r", got)
        plt.close("all")
      st.transitions += 1
  return (case, n)


# --- Benchmarks --------------------------------------------------------------------------------
class Clock:
  """Timer whose results identify the case and the repetition"""
  log = []
  stop = None
  exc = None

  def __init__(self, stmt="pass", setup="pass", **kw):
    self.key = (stmt, setup)

  def repeat(self, repeat=5, number=1):
    c = type(self)
    k = len(c.log)
    if c.stop is not None and k == c.stop:
      raise c.exc()
    c.log.append(self.key)
    return timings(self.key, repeat)

  def timeit(self, number=1):
    return self.repeat(1, number)[0]


def timings(key, n):
  h = int.from_bytes(vp.digest(key), "big")
  return [1 + (h % 1000 + i / 10) / 7 for i in range(n)]


class Done(BaseException):
  """Results are saved, plots are not wanted"""


def bench(argv, stop=None, exc=KeyboardInterrupt, shown=None, plot=True):
  Clock.log, Clock.stop, Clock.exc = [], stop, exc
  with contextlib.ExitStack() as es:
    es.enter_context(mock.patch("timeit.Timer", Clock))
    es.enter_context(mock.patch.object(
        perf, "log_speedup_imshow",
        lambda s, *a, **k: (shown.append(np.array(s)) if shown is not None else
                            None, plt.imshow(np.zeros((2, 2))))))
    for f in ("show", "savefig", "xlabel", "ylabel"):
      es.enter_context(mock.patch.object(plt, f))
    es.enter_context(mock.patch.object(plt.style, "use"))
    if not plot:
      es.enter_context(mock.patch.object(perf, "compute_speedup",
                                         side_effect=Done()))
      es.enter_context(contextlib.suppress(Done))
    try:
      perf.main(*argv, "-l", "CRITICAL")
    finally:
      plt.close("all")
  return list(Clock.log)


def bench_cases(nc, fs=800, dmin=.5, dmax=5., smin=0., smax=.01):
  with open(os.path.join(vp.REPO, "scripts", "cim22",
                         "cochleagram_setup.py.in"), encoding="utf-8") as f:
    tpl = f.read()
  q = [0.] if nc == 1 else [i / (nc - 1) for i in range(nc)]
  dur = [math.exp(math.log(dmin) + math.log(dmax / dmin) * v) for v in q]
  stri = [math.exp(math.log(1 + smin) + math.log((1 + smax) / (1 + smin)) * v) -
          1 for v in q]
  return dur, stri, tpl


def check_bench(path, nc, ns, complete, st):
  dur, stri, _ = bench_cases(nc)
  df = pd.read_csv(path)
  vp.check(len(df) % ns == 0, "%d timings saved", len(df))
  tot = nc * nc * len(perf.convolutions)
  if complete:
    vp.check(len(df) == tot * ns, "%d timings instead of %d", len(df), tot * ns)
  methods = list(perf.convolutions)
  order = list(itertools.product(range(nc), range(nc), range(len(methods))))
  for i in range(len(df) // ns):
    w = df.iloc[i * ns:(i + 1) * ns]
    d, s, m = order[i]
    vp.check(set(w["duration_i"]) == {d} and set(w["stride_i"]) == {s} and set(
        w["method_i"]) == {m} and set(w["method"]) == {methods[m]},
             "case %d: wrong rows %r", i, w.values.tolist())
    vp.check_close(np.array(w["duration"]), [dur[d]] * ns, "duration", 1e-9)
    vp.check_close(np.array(w["stride"]), [stri[s]] * ns, "stride", 1e-9, 1e-12)
    key = KEYS.get((nc, i))
    if key is not None:
      vp.check_close(np.array(w["timeit"]), timings(key, ns), "timings of case "
                     "%d" % i, 1e-9)
  return len(df) // ns


KEYS = {}


def _keys(nc):
  """What an uninterrupted benchmark times, in order"""
  if (nc, 0) not in KEYS:
    with scratch():
      log = bench(["-c", str(nc), "-n", "1", "--fs", "800"])
    vp.check(len(log) == nc * nc * len(perf.convolutions), "%d cases timed",
             len(log))
    vp.check(len(set(log)) == len(log) or nc == 1, "cases timed twice")
    dur, stri, _ = bench_cases(nc)
    from sample import psycho
    for i, (k, (d, s, m)) in enumerate(zip(log, itertools.product(
        dur, stri, perf.convolutions.values()))):
      env = {}
      with mock.patch.object(psycho, "GammatoneFilterbank"):
        exec(k[1], env)
      vp.check(k[0] == m and env["x"].size == round(800 * d) and
               env["stride"] == max(1, round(800 * s)), "case %d times %s of %d "
               "samples with stride %s", i, k[0], env["x"].size, env["stride"])
      KEYS[nc, i] = k


def gen_bench(tier):
  for nc in (1, 2) if tier == "quick" else (1, 2, 3):
    tot = nc * nc * 5
    for ns in (1, 2, 3):
      for a in range(tot + 1):
        for b in (None, 0, 1, 4):
          for exc in ("interrupt", "error"):
            yield [nc, ns, a, b, exc]


def run_bench(case, st):
  nc, ns, a, b, exc = case
  _keys(nc)
  tot = nc * nc * len(perf.convolutions)
  exc = KeyboardInterrupt if exc == "interrupt" else vp.Violation
  argv = ["-c", str(nc), "-n", str(ns), "--fs", "800", "-O", "b.csv"]
  with scratch():
    done = 0
    for stop in (a, b, None):
      left = tot - done
      shown = []
      try:
        log = bench(argv, stop, exc, shown)
      except vp.Violation:
        log = list(Clock.log)
      k = left if stop is None or stop >= left else stop
      vp.check([KEYS[nc, done + i] for i in range(k)] == log,
               "%d cases timed instead of the %d remaining", len(log), k)
      done += k
      n = check_bench("b.csv", nc, ns, done == tot, st)
      vp.check(n == done, "%d cases saved instead of %d", n, done)
      st.transitions += 1
    # the speed-up that is displayed
    m = list(perf.convolutions)
    t = {}
    for i, (d, s, k) in enumerate(itertools.product(
        range(nc), range(nc), range(len(m)))):
      t[d, s, m[k]] = np.mean(timings(KEYS[nc, i], ns))
    e = [[min(t[d, s, k] for k in m if k != "strided") / t[d, s, "strided"]
          for s in range(nc)] for d in range(nc)]
    vp.check(len(shown) == 1, "%d images", len(shown))
    vp.check_close(shown[0], np.array(e), "speed-up")
    st.traces += 1
  return (nc, ns, a, b, str(exc))


def gen_bcrash(tier):
  for ns in (1, 2):
    for a in (None, 2, 5):
      for b in (0, 1, 3):
        yield [ns, a, b]


def run_bcrash(case, st):
  """Killed while saving, then completed"""
  ns, a, b = case
  _keys(1)
  argv = ["-c", "1", "-n", str(ns), "--fs", "800", "-O", "b.csv"]
  with scratch() as d:
    if a is not None:
      bench(argv, a, plot=False)
    states = crash_states(lambda: bench(argv, b, plot=False), d, st, full=False)
  seen = set()
  for s in states:
    key = repr(sorted((k, v and v[1]) for k, v in s.items()))
    if key in seen:
      continue
    seen.add(key)
    with scratch() as d:
      restore(s, d)
      try:
        log = bench(argv, plot=False)
      except Exception as e:
        raise vp.Violation("run after a crash that left %s: %r" % (sorted(s),
                                                                   e)) from e
      check_bench("b.csv", 1, ns, True, st)
      vp.check(len(log) <= 5 - (a or 0), "%d cases timed again after a crash "
               "that left %s", len(log), sorted(s))
      st.outcome((case, len(log)))
    st.states += 1
  st.traces += 1


# --- What is timed -----------------------------------------------------------------------------
def gen_setup(tier):
  yield from ([list(c)] for c in itertools.product(
      (8000, 44100), (.05, .1213), (0, .0005, .01)))


def run_setup(case, st):
  """All the methods compute the same strided cochleagram of the same sound"""
  fs, dur, stride = case[0]
  tpl = bench_cases(1)[2]
  env = {}
  exec(tpl.format(fs=fs, dur=dur, stride_time=stride), env)
  x = env["x"]
  vp.check(x.size == round(fs * dur), "%d samples", x.size)
  h = max(1, int(round(fs * stride)))
  ref = None
  from sample import psycho
  fb = psycho.GammatoneFilterbank(normalize=True).precompute(fs=fs,
                                                             analytic=True)
  for k, s in perf.convolutions.items():
    y = np.asarray(eval(s, env))
    if ref is None:
      ref = np.asarray(fb.convolve(x))[:, ::h]
    vp.check_close(y, ref, "method " + k, 1e-6, 1e-8 * np.abs(ref).max())
  return case


# --- Results of the benchmark --------------------------------------------------------------------
def gen_log(tier):
  yield from ([a, b, n, o] for a in (0., .5, 3.) for b in (1., 4., 7.5)
              for n in (1, 2, 5) for o in (0, 1, 2.) if a + o > 0 and b > a)


def run_log(case, st):
  a, b, n, o = case
  y = perf.logspace(a, b, n, offset=o)
  vp.check(len(y) == n, "%d points", len(y))
  vp.check_close(y[:1], [a], "first point", 1e-9, 1e-9)
  if n > 1:
    vp.check_close(y[-1:], [b], "last point")
    r = (y[1:] + o) / (y[:-1] + o)
    vp.check_close(r, np.full(n - 1, r[0]), "ratios", 1e-9)
  for p in (0, .25, 1):
    vp.check_close(perf.logspace_p(p, a, b, offset=o),
                   (a + o) * ((b + o) / (a + o))**p - o, "fraction", 1e-9, 1e-9)
  return case


if __name__ == "__main__":
  logging.disable(logging.CRITICAL)
  vp.main(
      "C30", [("histories", gen_hist, run_hist, {"chunk": 8}),
              ("crashes", gen_crash, run_crash, {"chunk": 1}),
              ("reports", gen_rep, run_rep, {"chunk": 1}),
              ("report crashes", gen_repcrash, run_repcrash, {"chunk": 1}),
              ("tests", gen_real, run_real, {"chunk": 1}),
              ("known models", gen_found, run_found, {"chunk": 16}),
              ("context", gen_ctx, run_ctx, {"chunk": 1}),
              ("benchmarks", gen_bench, run_bench, {"chunk": 8}),
              ("benchmark crashes", gen_bcrash, run_bcrash, {"chunk": 1}),
              ("timed code", gen_setup, run_setup, {"chunk": 1}),
              ("spacing", gen_log, run_log, {"chunk": 16})],
      level="fault_enumeration",
      rule="every history of complete, interrupted, failing and extended runs "
      "of the evaluation (on a controlled pool) and of the benchmark (on a "
      "controlled clock); every state of the disk that a run killed at any "
      "event of the Python code can leave, with torn writes, followed by a "
      "complete run",
      bounds={
          "quick": "2 runs of up to 5 tests before the two last ones; 4 tests; "
                   "up to 20 cases interrupted twice",
          "thorough": "3 runs; 45 cases interrupted twice"
      },
      assumptions=[
          "the number of tests does not decrease, and the options of a resumed "
          "run are compatible with those of the first one",
          "process death, not power loss"
      ])

"""Bounded exhaustive exploration driver shared by every check.

A check module declares *scenarios*.  A scenario is a pair of functions

* ``gen(tier)``: enumerates, in a fixed simplest-first order, every case of a
  finite space (operation sequences, environment answers, input shapes, fault
  points, ...). Cases are JSON values.
* ``run(case, st)``: executes the real code of /repo on that case, compares it
  to the oracle at every step, raises :class:`Violation` when they disagree
  and returns an *outcome* (any repr-able value; used to count how many
  distinct behaviours were observed).

``st`` is a :class:`Stats`: scenarios which search a state space add the states
and transitions they visit.  Nothing is sampled: the only use of VERIF_SEED is
to be recorded in the evidence.
"""
import argparse
import atexit
import collections
import contextlib
import hashlib
import itertools
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
  """The property does not hold on a case"""


class Stats:
  """Counters of one run"""

  def __init__(self):
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.counts = collections.Counter()
    self.outcomes = set()

  def count(self, k, n=1):
    self.counts[k] += n

  def outcome(self, o):
    """Record one observed behaviour (for distinct-outcome counting)"""
    self.outcomes.add(digest(o))

  def merge(self, o):
    self.states += o.states
    self.transitions += o.transitions
    self.traces += o.traces
    self.counts.update(o.counts)
    self.outcomes |= o.outcomes


def digest(o):
  return hashlib.blake2b(repr(o).encode(), digest_size=8).digest()


def jsonable(o):
  """Best-effort JSON form"""
  import numpy as np
  if isinstance(o, dict):
    return {str(k): jsonable(v) for k, v in o.items()}
  if isinstance(o, (list, tuple, set)):
    return [jsonable(v) for v in o]
  if isinstance(o, np.ndarray):
    return jsonable(o.tolist())
  if isinstance(o, np.generic):
    return jsonable(o.item())
  if isinstance(o, complex):
    return [o.real, o.imag]
  if o is None or isinstance(o, (str, int, float, bool)):
    return o
  return repr(o)


def check(cond, msg, *args):
  """Oracle assertion"""
  if not cond:
    raise Violation(msg % args if args else msg)


@contextlib.contextmanager
def quiet_stdout():
  """Silence modules which print when they are imported"""
  os.environ["PYGAME_HIDE_SUPPORT_PROMPT"] = "1"
  yield


# --- Numeric comparison ------------------------------------------------------
def close(a, b, rtol=1e-9, atol=1e-12):
  """Shape- and NaN-aware closeness"""
  import numpy as np
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape:
    return False
  return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def check_close(a, b, what, rtol=1e-9, atol=1e-12):
  import numpy as np
  aa, bb = np.asarray(a), np.asarray(b)
  if aa.shape != bb.shape:
    raise Violation("%s: shape %s instead of %s (got %r, expected %r)" %
                    (what, aa.shape, bb.shape, a, b))
  if not close(aa, bb, rtol, atol):
    raise Violation("%s: got %r, expected %r" % (what, a, b))


def check_raises(exc, fn, what):
  """fn() must raise one of ``exc``"""
  try:
    r = fn()
  except exc as e:
    return e
  except Exception as e:  # pylint: disable=W0703
    raise Violation("%s: raised %r instead of %s" % (what, e, exc)) from e
  raise Violation("%s: returned %r instead of raising %s" % (what, r, exc))


# --- Deviation-bounded environment answers -----------------------------------
class Divergence(Exception):
  """A replayed prefix did not reproduce the recorded choice points"""


class Chooser:
  """Environment decisions of one execution: replays ``prefix`` then takes the
  default answer (0) at each later choice point"""

  def __init__(self, prefix=()):
    self.prefix = list(prefix)
    self.points = []  # (label, n, choice)

  def __call__(self, n, label=""):
    i = len(self.points)
    c = self.prefix[i] if i < len(self.prefix) else 0
    if not 0 <= c < n:
      raise Divergence("choice %d out of range at point %d (%s, %d)" %
                       (c, i, label, n))
    self.points.append((label, n, c))
    return c

  @property
  def choices(self):
    return [c for _, _, c in self.points]


def explore_choices(execute, bound=None, horizon=None):
  """Stateless exploration of every choice sequence of ``execute(chooser)``
  with at most ``bound`` deviations from the default answer. Yields
  (choices, result) in increasing-prefix order"""
  stack = [[]]
  while stack:
    prefix = stack.pop()
    ch = Chooser(prefix)
    res = execute(ch)
    if len(ch.points) < len(prefix):
      raise Divergence("execution shorter than the replayed prefix")
    yield ch, res
    base = sum(1 for c in prefix if c)
    pushes = []
    for i in range(len(prefix), len(ch.points)):
      if horizon is not None and i >= horizon:
        break
      if bound is not None and base + 1 > bound:
        break
      for alt in range(1, ch.points[i][1]):
        pushes.append(ch.choices[:i] + [alt])
    stack.extend(reversed(pushes))


# --- Runner ------------------------------------------------------------------
_SCEN = None  # name -> (gen, run); set before forking


def _quiet():
  warnings.simplefilter("ignore")
  import numpy as np
  np.seterr(all="ignore")


CASE_SECONDS = 240  # thousands of times what a case takes


class Hang(BaseException):
  """A case takes forever. Not an Exception: nothing should catch it"""


def _on_alarm(*_):
  raise Hang()


def _exec(name, case):
  """Run one case; returns (stats, error text or None)"""
  st = Stats()
  _quiet()
  main = threading.current_thread() is threading.main_thread()
  if main:
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
  try:
    o = _SCEN[name][1](case, st)
    if o is not None:
      st.outcome((name, o))
  except Hang:
    return st, "still running after %d s:\n%s" % (CASE_SECONDS,
                                                 traceback.format_exc())
  except Violation as e:
    return st, str(e)
  except Exception:  # pylint: disable=W0703
    return st, "the code under test raised:\n" + traceback.format_exc()
  finally:
    if main:
      signal.setitimer(signal.ITIMER_REAL, 0)
  return st, None


def _work(a):
  name, start, cases = a
  tot = Stats()
  for i, c in enumerate(cases):
    st, err = _exec(name, c)
    tot.merge(st)
    if err is not None:
      return tot, i + 1, (start + i, c, err)
  return tot, len(cases), None


def _results(pool, work):
  """Results of a pool in order. A worker that disappears (killed, exited) is
  an error of the case it was running"""
  procs = list(pool._pool)  # pylint: disable=W0212
  sent = []

  def log():
    for w in work:
      sent.append(w[1:])
      yield w

  it = pool.imap(_work, log())
  done = 0
  while True:
    try:
      r = it.next(timeout=5)
    except StopIteration:
      return
    except multiprocessing.TimeoutError:
      dead = [p.exitcode for p in procs if p.exitcode is not None]
      if dead and done < len(sent):
        k, c = sent[done]
        yield Stats(), 0, (k, c[0], "a process ended with status %s while "
                           "running one of the cases from this one on" % dead)
        return
      continue
    done += 1
    yield r


def _chunks(it, n):
  it = iter(it)
  k = 0
  while True:
    c = list(itertools.islice(it, n))
    if not c:
      return
    yield k, c
    k += len(c)


def known_findings(pid):
  """Entries of the committed known-findings file for this property"""
  p = os.path.join(VERIF, "known_findings.json")
  if not os.path.exists(p):
    return []
  with open(p, encoding="utf-8") as f:
    return [
        e for e in json.load(f)["findings"]
        if e["property"] == pid and e.get("status") == "known"
    ]


def main(pid,
         scenarios,
         level,
         rule,
         bounds,
         assumptions=(),
         procs=8,
         chunk=None,
         exhaustive=True):
  """Entry point of a check.

  scenarios: list of (name, gen, run) or (name, gen, run, opts) where opts may
  hold ``chunk`` (cases per work item) and ``serial`` (run in this process)"""
  global _SCEN, CASE_SECONDS
  ap = argparse.ArgumentParser()
  ap.add_argument("--tier",
                  default=os.environ.get("VERIF_TIER", "quick"),
                  choices=("quick", "thorough"))
  ap.add_argument("--replay")
  ap.add_argument("--only", help="run only this scenario")
  args = ap.parse_args()
  # everything temporary goes in here, also what terminated workers leave
  tmp = tempfile.mkdtemp(prefix="vp_run_")
  tempfile.tempdir = tmp
  me = os.getpid()
  atexit.register(lambda: os.getpid() == me and
                  shutil.rmtree(tmp, ignore_errors=True))
  if args.tier != "quick":
    CASE_SECONDS = max(CASE_SECONDS, 1800)
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  scen = [(s + ({},))[:4] for s in scenarios]
  _SCEN = {s[0]: (s[1], s[2]) for s in scen}
  if args.replay:
    with open(args.replay, encoding="utf-8") as f:
      r = json.load(f)
    errs = [_exec(r["scenario"], r["case"])[1] for _ in range(2)]
    print("scenario", r["scenario"], "case", json.dumps(r["case"])[:2000])
    print("replay 1:", errs[0] or "holds")
    print("replay 2:", errs[1] or "holds")
    sys.exit(1 if any(errs) else 0)

  t0 = time.time()
  total = Stats()
  n_eval = 0
  per = {}
  samples = []
  violation = None
  known = known_findings(pid)
  hit = {}
  for name, gen, _, opts in scen:
    if args.only and name != args.only:
      continue
    st_s, n_s = Stats(), 0
    t_s = time.time()
    ch = opts.get("chunk", chunk or 16)
    work = ((name, k, c) for k, c in _chunks(gen(args.tier), ch))
    pool = None
    if opts.get("serial") or procs <= 1:
      results = map(_work, work)
    else:
      pool = multiprocessing.get_context("fork").Pool(procs)
      results = _results(pool, work)
    first = None
    try:
      for st, n, err in results:
        st_s.merge(st)
        n_s += n
        if err is not None:
          k = next((k for k in known if _matches(k, name, err)), None)
          if k is None:
            violation = (name, err)
            break
          hit.setdefault(k["id"], k)
    finally:
      if pool is not None:
        pool.terminate()
        pool.join()
    for c in itertools.islice(gen(args.tier), 0, 2):
      samples.append({"scenario": name, "case": jsonable(c)})
    last = None
    per[name] = {
        "executions": n_s,
        "distinct_outcomes": len(st_s.outcomes),
        "states": st_s.states,
        "transitions": st_s.transitions,
        "wall_s": round(time.time() - t_s, 2),
        **{k: v for k, v in sorted(st_s.counts.items())}
    }
    print("[%s] %-24s executions=%d outcomes=%d states=%d transitions=%d %s "
          "(%.1fs)" % (pid, name, n_s, len(st_s.outcomes), st_s.states,
                       st_s.transitions, dict(st_s.counts),
                       time.time() - t_s),
          flush=True)
    total.merge(st_s)
    n_eval += n_s
    if violation:
      break
  cov = {
      "rule": rule,
      "bounds": bounds[args.tier] if isinstance(bounds, dict) else bounds,
      "scenarios": per,
      "samples": [_trim(s) for s in samples[:12]],
      "exhaustive": bool(exhaustive and violation is None),
      "evaluations": n_eval,
      "distinct_nontrivial": len(total.outcomes),
  }
  if level == "model_checking":
    cov["states"] = total.states
    cov["transitions"] = total.transitions
    cov["traces_validated_against_impl"] = total.traces
  ev = {
      "property": pid,
      "tier": args.tier,
      "seed": seed,
      "level": level,
      "coverage": cov,
      "assumptions": list(assumptions),
      "wall_s": round(time.time() - t0, 2),
      "violations": 1 if violation else 0,
  }
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  with open(os.path.join(VERIF, "evidence", pid + ".json"),
            "w",
            encoding="utf-8") as f:
    json.dump(ev, f, indent=1)
  for k in known:
    if k["id"] in hit:
      print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
  if violation:
    name, (idx, case, msg) = violation
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, pid + ".json")
    with open(path, "w", encoding="utf-8") as f:
      json.dump(
          {
              "property": pid,
              "scenario": name,
              "index": idx,
              "case": jsonable(case),
              "message": msg
          },
          f,
          indent=1)
    print("scenario %s, case #%d: %s" % (name, idx, json.dumps(
        jsonable(case))[:1500]))
    print(msg[-4000:])
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    sys.exit(1)
  print("[%s] held on everything explored: %d executions, %d distinct "
        "outcomes, %.1fs" % (pid, n_eval, len(total.outcomes),
                             time.time() - t0))
  sys.exit(0)


def _trim(s):
  t = json.dumps(s)
  return s if len(t) < 1500 else {"scenario": s["scenario"], "case": t[:1400]}


def _matches(k, name, err):
  idx, case, msg = err
  if k.get("scenario") != name:
    return False
  return json.dumps(jsonable(case), sort_keys=True) in {
      json.dumps(c, sort_keys=True) for c in k.get("cases", ())
  }


# --- Enumeration helpers -----------------------------------------------------
def sequences(alphabet, max_len, min_len=0):
  """Every sequence over the alphabet, shortest first"""
  for n in range(min_len, max_len + 1):
    yield from (list(s) for s in itertools.product(alphabet, repeat=n))

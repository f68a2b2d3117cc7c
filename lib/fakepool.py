"""Controlled stand-ins for a process pool and a storage manager.

Every answer of the environment (which pending task completes next, spurious
wake-ups, injected failures) is decided by a :class:`vp.Chooser` or by a fault
index. Tasks see pickled copies of their arguments, as in a worker process.
"""
import copy
import multiprocessing as mp
import pickle

from sample.utils import learn

_SHARED = {}


class Fault(Exception):
  """Injected failure"""


class Env:
  """Counts the calls that leave the process and fails one of them"""

  def __init__(self, chooser=None, fault_at=None, spurious=0):
    self.chooser = chooser
    self.fault_at = fault_at
    self.calls = []
    self.spurious = spurious
    self.order = []

  def call(self, label):
    i = len(self.calls)
    self.calls.append(label)
    if i == self.fault_at:
      raise Fault("%s (call %d)" % (label, i))

  def choose(self, n, label):
    return 0 if self.chooser is None else self.chooser(n, label)


def _lookup(i):
  return _SHARED[i]


class Proxy:
  """Proxy of a storage living in a manager process"""

  def __init__(self, env, **kw):
    self._env = env
    self._obj = learn.OptionalStorage(**kw)
    self._id = len(_SHARED)
    _SHARED[self._id] = self

  def __reduce__(self):
    return _lookup, (self._id,)

  def __deepcopy__(self, memo):
    return self

  def _rpc(self, name, *a, **k):
    self._env.call("storage." + name)
    a, k = pickle.loads(pickle.dumps((a, k)))
    r = getattr(self._obj, name)(*a, **k)
    return pickle.loads(pickle.dumps(r))

  def append(self, *a, **k):
    return self._rpc("append", *a, **k)

  def reset(self):
    return self._rpc("reset")

  def get_state(self, *a, **k):
    return self._rpc("get_state", *a, **k)

  def __getitem__(self, k):
    return self._rpc("__getitem__", k)

  def get_params(self, deep=True):
    r = self._obj.get_params(deep)
    return r

  def set_params(self, **k):
    self._obj.set_params(**k)
    return self


class Manager:
  """Manager of storage proxies"""

  def __init__(self, env):
    self.env = env

  def OptionalStorage(self, **kw):  # pylint: disable=C0103
    self.env.call("manager.OptionalStorage")
    return Proxy(self.env, **kw)


class Result:
  """Pending result of one task"""

  def __init__(self, pool, i, func, args, kwds):
    self.pool, self.i = pool, i
    self._task = pickle.dumps((func, args, kwds))
    self.done = False

  def run(self):
    if self.done:
      return
    self.done = True
    self.pool.env.order.append(self.i)
    func, args, kwds = pickle.loads(self._task)
    try:
      self.value = pickle.dumps((True, func(*args, **kwds)))
    except Exception as e:  # pylint: disable=W0703
      self.value = pickle.dumps((False, e))

  def ready(self):
    self.pool.env.call("result.ready")
    if not self.done and self.pool.env.choose(2, "ready %d" % self.i):
      self.run()
    return self.done

  def successful(self):
    return self.done and pickle.loads(self.value)[0]

  def wait(self, timeout=None):
    env = self.pool.env
    env.call("result.wait")
    if self.done:
      return
    self.pool.progress(timeout is not None)
    if timeout is None:
      while not self.done:
        self.pool.progress(False)

  def get(self, timeout=None):
    self.pool.env.call("result.get")
    while not self.done:
      self.pool.progress(False)
    ok, v = pickle.loads(self.value)
    if not ok:
      raise v
    return v


class Pool:
  """Pool whose workers advance only when the chooser says so"""

  def __init__(self, env):
    self.env = env
    self.tasks = []

  def progress(self, may_time_out):
    """One pending task completes (or the wait times out)"""
    pend = [t for t in self.tasks if not t.done]
    if not pend:
      return
    n = len(pend)
    if may_time_out and self.env.spurious > 0:
      n += 1
    c = self.env.choose(n, "complete")
    if c >= len(pend):
      self.env.spurious -= 1
      return
    pend[c].run()

  def apply_async(self, func, args=(), kwds=None, callback=None,
                  error_callback=None):
    self.env.call("pool.apply_async")
    r = Result(self, len(self.tasks), func, args, kwds or {})
    self.tasks.append(r)
    return r

  def apply(self, func, args=(), kwds=None):
    return self.apply_async(func, args, kwds).get()

  def starmap(self, func, it, chunksize=None):
    rs = [self.apply_async(func, a) for a in it]
    return [r.get() for r in rs]

  def map(self, func, it, chunksize=None):
    return self.starmap(func, ((a,) for a in it))

  def imap(self, func, it, chunksize=1):
    rs = [self.apply_async(func, (a,)) for a in it]
    return (r.get() for r in rs)

  def imap_unordered(self, func, it, chunksize=1):
    rs = [self.apply_async(func, (a,)) for a in it]

    def gen():
      left = list(rs)
      while left:
        if not any(r.done for r in left):
          self.progress(False)
        for r in [r for r in left if r.done]:
          left.remove(r)
          yield r.get()

    return gen()

  def starmap_async(self, func, it, chunksize=None, **_):
    rs = [self.apply_async(func, a) for a in it]
    return _Many(self, rs)

  map_async = None


class _Many:

  def __init__(self, pool, rs):
    self.pool, self.rs = pool, rs

  def ready(self):
    return all([r.ready() for r in self.rs])

  def wait(self, timeout=None):
    for r in self.rs:
      r.wait(timeout)

  def get(self, timeout=None):
    return [r.get() for r in self.rs]

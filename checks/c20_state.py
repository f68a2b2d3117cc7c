"""C20: storages, default sub-models and parameters never leak"""
import copy
import importlib
import inspect
import itertools
import pickle
import pkgutil

import numpy as np
import sample
import vp
from sample.utils import learn
from sklearn import base

S = learn.OptionalStorage

# --- Storage: state machine -----------------------------------------------------------
APP = [("a", None), ("a", 0), ("a", 2), ("b", 1), ("b", None)]
NONE = [("a", None), ("b", 0)]  # None as a value
OPS = [["append", i] for i in range(len(APP))] + [["call", 0], ["reset"], ["on"],
                                                 ["off"], ["clone"], ["copy"],
                                                 ["pickle"], ["peek"]] + [["none", i] for i in range(len(NONE))]


def gen_store(tier):
  top = 4 if tier == "quick" else 5
  for save in (False, True):
    for n in range(top + 1):
      for seq in itertools.product(range(len(OPS)), repeat=n):
        yield [save, list(seq)]


def run_store(case, st):
  save, seq = case
  s = S(save=save) if save else S()
  m = {}
  val = 0
  for k, i in enumerate(seq):
    op = OPS[i]
    if op[0] in ("append", "call", "none"):
      key, idx = (NONE if op[0] == "none" else APP)[op[1]]
      val += 1
      v = None if op[0] == "none" else [val]
      fn = s.append if op[0] != "call" else s
      if idx is None:
        r = fn(key, v) if k % 2 else fn(key=key, value=v)
      else:
        r = fn(key, v, idx) if k % 2 else fn(key=key, value=v, index=idx)
      vp.check(r is v, "append returned %r instead of its input", r)
      if save:
        lst = m.setdefault(key, [])
        if idx is None:
          lst.append(v)
        else:
          while len(lst) <= idx:
            lst.append(None)
          lst[idx] = v
    elif op[0] == "reset":
      s.reset()
      m = {}
    elif op[0] in ("on", "off"):
      save = op[0] == "on"
      s.set_params(save=save)
    elif op[0] == "clone":
      s, m = base.clone(s), {}
    elif op[0] == "copy":
      old = s
      s = copy.deepcopy(s)
      m = copy.deepcopy(m)
      old.append("a", "other")
      old.reset()
    elif op[0] == "pickle":
      old = s
      s = pickle.loads(pickle.dumps(s))
      m = copy.deepcopy(m)
      old.append("b", "other")
    elif op[0] == "peek":
      # a deep copy of the state does not give access to the state
      d = s.get_state()
      for v in d.values():
        v.append("x")
        for q in v:
          if isinstance(q, list):
            q.append("z")
        if v[0] is not None:
          v[0] = "y"
      d["z"] = []
    vp.check(s.save == save, "save=%r", s.save)
    for deep in (True, False):
      vp.check(s.get_state(deepcopy=deep) == m, "state %r instead of %r after "
               "%r", s.get_state(), m, [OPS[j] for j in seq[:k + 1]])
    for key in ("a", "b", "z"):
      if key in m:
        vp.check(s[key] == m[key], "item %r", key)
        vp.check(all(p is q for p, q in zip(s[key], m[key])) or any(
            OPS[j][0] in ("copy", "pickle") for j in seq[:k + 1]),
                 "values were copied")
      else:
        vp.check_raises(KeyError, lambda key=key: s[key], "missing key")
    st.transitions += 1
  st.states += 1
  st.traces += 1
  return (save, sorted((k, len(v)) for k, v in m.items()))


# --- Default property ------------------------------------------------------------------
def _cls(kind):

  class Member:

    def __init__(self, tag="default"):
      self.tag = tag

  class Parent:

    def __init__(self, member=None, other=None, size=1):
      self.size = size
      self.member = member
      self.other = other

    if kind == "plain":

      @learn.default_property
      def member(self):
        """Doc of member"""
        return Member()

      @learn.default_property
      def other(self):
        return [self.size]
    else:

      @learn.default_property(doc="Doc of member")
      def member(self):
        return Member()

      other = learn.default_property(lambda self: [self.size], name="other")

  class Child(Parent):
    pass

  return Member, Parent, Child


PROP_OPS = ["none", "obj0", "obj1", "false", "other_none", "other_val", "grow",
            "new", "by_type", "never"]


def gen_prop(tier):
  top = 4 if tier == "quick" else 5
  for kind in ("plain", "args"):
    for child in (False, True):
      for seq in vp.sequences(PROP_OPS, top):
        yield [kind, child, seq]


def run_prop(case, st):
  kind, child, seq = case
  Member, Parent, Child = _cls(kind)
  cls = Child if child else Parent
  vp.check(cls.member.__doc__ == "Doc of member", "documentation %r",
           cls.member.__doc__)
  objs = [Member("0"), Member("1")]
  mode = "none"
  a, b = cls(), cls()
  bm, bo = b.member, b.other
  exp, oth = "default", [1]
  seen = [a.member, bm]
  vp.check(a.member is not bm and a.other is not bo, "shared default")
  for op in seq:
    if op in ("none", "obj0", "obj1", "false"):
      v = {"none": None, "obj0": objs[0], "obj1": objs[1], "false": 0}[op]
      a.member = v
      if mode == "none":
        dflt = v is None
      elif mode == "by_type":
        dflt = not isinstance(v, Member)
      else:
        dflt = False
      if dflt:
        vp.check(isinstance(a.member, Member) and all(
            a.member is not o for o in objs + seen), "default value is shared")
        seen.append(a.member)
        exp = "default"
      else:
        vp.check(a.member is v, "explicit value %r replaced by %r", v, a.member)
        exp = v
    elif op == "other_none":
      a.other = None
      oth = [a.size]
    elif op == "other_val":
      a.other = oth = ["x"]
    elif op == "grow":
      a.size += 1
    elif op == "new":
      if mode != "never":
        c = cls(size=7)
        vp.check(c.other == [7] and c.member is not a.member,
                 "default of a new object")
    elif op == "by_type":
      cls.member.defaulter(lambda _, v: not isinstance(v, Member))
      mode = "by_type"
    elif op == "never":
      cls.member.defaulter()
      mode = "never"
    vp.check(a.member is a.member and a.other is a.other,
             "defaults are built on access")
    vp.check(a.member.tag == "default" if exp == "default" else a.member is exp,
             "member %r", a.member)
    vp.check(a.other == oth, "other member %r instead of %r", a.other, oth)
    vp.check(b.member is bm and b.other is bo and b.other == [1],
             "the other object changed")
    st.transitions += 1
  st.states += 1
  st.traces += 1
  return (kind, child, mode, exp if isinstance(exp, str) else "given")


def gen_name(tier):
  yield 0


def run_name(case, st):
  import functools
  for f in (lambda _: 0, functools.partial(int)):
    vp.check_raises(ValueError, lambda f=f: learn.default_property(f),
                    "property without a name")
  for n in ("_", "<lambda>"):
    vp.check_raises(ValueError,
                    lambda n=n: learn.default_property(lambda _: 0, name=n),
                    "forbidden name")
  return None


# --- Every model of the package -----------------------------------------------------------
def models():
  out = {}
  for m in pkgutil.walk_packages(sample.__path__, "sample."):
    if ".widgets" in m.name or m.name in ("sample.gui", "sample.vid"):
      continue
    mod = importlib.import_module(m.name)
    for c in vars(mod).values():
      if inspect.isclass(c) and issubclass(c, base.BaseEstimator) and (
          c.__module__.startswith("sample.")):
        try:
          out["%s.%s" % (c.__module__, c.__qualname__)] = (c, c())
        except TypeError:
          pass
  return {k: v[0] for k, v in sorted(out.items())}


MODELS = models()


def view(m):
  """Hashable picture of all the parameters, with the types of objects"""
  out = {}
  for k, v in m.get_params(deep=True).items():
    if isinstance(v, base.BaseEstimator):
      out[k] = type(v).__name__
    elif isinstance(v, np.ndarray):
      out[k] = ("array", v.shape, v.tobytes())
    else:
      out[k] = repr(v) if not callable(v) else getattr(v, "__qualname__", v)
  return out


def other(v):
  """Another value for a parameter"""
  if isinstance(v, bool):
    return not v
  if isinstance(v, (int, float)):
    return v + 1
  if isinstance(v, str):
    return v + "_"
  if isinstance(v, np.ndarray):
    return v * 2 + 1
  if isinstance(v, tuple):
    return v + (9,)
  return 3.5


def gen_models(tier):
  for name, c in MODELS.items():
    keys = [k for k, v in sorted(c().get_params().items())
            if not isinstance(v, base.BaseEstimator) and not callable(v)]
    subs = [k for k, v in sorted(c().get_params().items())
            if isinstance(v, base.BaseEstimator)]
    for i, k in enumerate(keys):
      yield [name, [k]]
      for l in keys[i + 1:] if tier != "quick" else keys[i + 1:i + 6]:
        yield [name, [k, l]]
    for s in subs:
      yield [name, ["none", s]]
      yield [name, ["share", s]]
      for k in c().get_params():
        if k.startswith(s + "__"):
          yield [name, ["replace", s, k]]
    yield [name, []]


def run_models(case, st):
  name, keys = case
  cls = MODELS[name]
  a, b = cls(), cls()
  ref = view(b)
  vp.check(view(a) == ref, "two default models differ")
  subs = {k: v for k, v in a.get_params().items()
          if isinstance(v, base.BaseEstimator)}
  for k, v in b.get_params().items():
    if k in subs:
      vp.check(v is not subs[k], "default %s shared by two models", k)
    elif isinstance(v, np.ndarray):
      vp.check(v is not a.get_params()[k], "default %s shared", k)
  if keys[:1] == ["replace"]:
    # a new sub-model and a parameter of it, in the same call, in any order
    _, k, nested = keys
    val = b.get_params()[nested]
    deep = isinstance(val, base.BaseEstimator)
    val = base.clone(val) if deep else max if callable(val) else other(val)
    for order, way in itertools.product((0, 1), ("set", "init")):
      m, sm = cls(), base.clone(b.get_params()[k])
      old = m.get_params()[k]
      before = view(old)
      kw = {nested: val, k: sm} if order else {k: sm, nested: val}
      if way == "set":
        m.set_params(**kw)
      elif any(p.kind is p.VAR_KEYWORD for p in inspect.signature(
          cls.__init__).parameters.values()):
        m = cls(**kw)
      else:
        continue
      got = m.get_params()
      vp.check(got[k] is sm, "%s is not the given one", k)
      vp.check(got[nested] is val or np.array_equal(got[nested], val),
               "%s is %r after setting it together with %s", nested,
               got[nested], k)
      vp.check(view(old) == before, "the replaced %s was modified", k)
      for q, v in view(m).items():
        vp.check(q.startswith(nested) or v == ref[q],
                 "%s changed when setting %s", q, nested)
      st.transitions += 1
    vp.check(view(b) == ref and view(cls()) == ref, "other models changed")
    return (name, keys)
  if keys[:1] in (["none"], ["share"]):
    k = keys[1]
    if keys[0] == "none":
      a.set_params(**{k: None})
      v = a.get_params()[k]
      if v is not None:
        vp.check(v is not subs[k] and type(v) is type(subs[k]),
                 "default of %s not restored: %r", k, v)
        vp.check(view(a) == ref, "default of %s differs", k)
    else:
      # an explicit sub-model is used as it is, clones have their own
      a.set_params(**{k: b.get_params()[k]})
      vp.check(a.get_params()[k] is b.get_params()[k], "explicit sub-model")
      c = base.clone(a)
      vp.check(c.get_params()[k] is not b.get_params()[k],
               "the clone shares a sub-model")
      vp.check(view(c) == view(a), "clone differs")
    return case
  new = {k: other(a.get_params()[k]) for k in keys}
  # together, one by one, in the other order, and through the constructor
  ways = [a]
  a.set_params(**new)
  for order in (keys, keys[::-1]):
    m = cls()
    for k in order:
      m.set_params(**{k: new[k]})
    ways.append(m)
  # objects whose constructor takes nested parameters
  if any(p.kind is p.VAR_KEYWORD for p in inspect.signature(
      cls.__init__).parameters.values()) or all("__" not in k for k in keys):
    ways.append(cls(**new))
  for w, m in enumerate(ways):
    got = m.get_params()
    for k in keys:
      vp.check(type(got[k]) is type(new[k]) and np.array_equal(got[k], new[k]),
               "%s is %r after setting %r (%d)", k, got[k], new[k], w)
    for k, v in view(m).items():
      if k not in keys and not (w == 3 and isinstance(got[k], np.ndarray)):
        vp.check(v == ref[k], "%s changed when setting %r", k, keys)
  vp.check(view(b) == ref and view(cls()) == ref,
           "setting %r of a model changed others", keys)
  for c in (base.clone(a), copy.deepcopy(a), pickle.loads(pickle.dumps(a))):
    vp.check(view(c) == view(a), "copy differs: %r", keys)
    for k, v in c.get_params().items():
      if isinstance(v, (base.BaseEstimator, np.ndarray)):
        vp.check(v is not a.get_params()[k], "the copy shares %s", k)
    before = view(a)
    for k in keys:
      c.set_params(**{k: "changed"})
    vp.check(view(a) == before, "changing a copy changed the original")
  for bad in ("nope", "nope__x"):
    vp.check_raises(ValueError, lambda bad=bad: cls().set_params(**{bad: 1}),
                    "unknown parameter")
  st.states += 1
  st.traces += 1
  return (name, keys)


if __name__ == "__main__":
  vp.main(
      "C20", [("storage", gen_store, run_store, {"chunk": 256}),
              ("default_property", gen_prop, run_prop, {"chunk": 128}),
              ("names", gen_name, run_name, {"serial": True}),
              ("models", gen_models, run_models, {"chunk": 8})],
      level="model_checking",
      rule="every sequence of operations of a storage and of a default "
      "property against a reference state; every model class x every parameter "
      "or pair of parameters x way of setting x way of copying",
      bounds={
          "quick": "sequences of 4 operations",
          "thorough": "sequences of 5 operations, all the pairs of parameters"
      },
      assumptions=["models are those constructible without arguments"])

"""C21: warning filters, variants of functions and default arguments"""
import inspect
import itertools
import warnings

import numpy as np
import vp
from c04_params import LineThrough, ScriptedModel, make_track
from sample import SAMPLE, utils
from sample.utils import SAMPLEDeprecationWarning


class Boom(Exception):
  pass


# --- Warning filters -----------------------------------------------------------------
ACTIONS = ("ignore", "error", "always")
CATS = {"all": None, "user": UserWarning, "dep": DeprecationWarning}
TOGGLES = {"none": None, "on": ("flt", True), "off": ("flt", False)}
CALLS = [{}, {"flt": True}, {"flt": False}]
BODIES = ("quiet", "user", "dep", "raise", "user_raise", "inner_filter")


def gen_warn(tier):
  for act in ACTIONS:
    for cat in CATS:
      for tg in TOGGLES:
        for rec in (False, True):
          for tr in (False, True):
            for form in ("decorator", "direct"):
              for seq in itertools.product(range(len(CALLS)), repeat=1 if tier ==
                                           "quick" else 2):
                yield [act, cat, tg, rec, tr, form, list(seq)]


def run_warn(case, st):
  act, cat, tg, rec, tr, form, calls = case
  toggle = TOGGLES[tg]
  if toggle is None:
    calls = [0 for _ in calls]
  args = []

  def func(a, *more, b=2, **kw):
    args.append((a, more, b, kw))
    body = a
    if body.startswith("user"):
      warnings.warn("w1", UserWarning)
    if body == "dep":
      warnings.warn("w2", DeprecationWarning)
    if body == "inner_filter":
      warnings.simplefilter("ignore")
      warnings.filters.append("junk")
    if body.endswith("raise"):
      raise Boom()
    return (a, b)

  func.tag = 3
  traces = []
  opts = {"action": act}
  if CATS[cat] is not None:
    opts["category"] = CATS[cat]
  if toggle is not None:
    opts["toggle"] = toggle
  if rec:
    opts["catch_kws"] = {"record": True}
  if tr:
    opts["traces"] = traces
  if form == "decorator":
    f = utils.warnings_simplefilter(**opts)(func)
  else:
    f = utils.warnings_simplefilter(func, **opts)
  vp.check(f.__name__ == "func" and f.tag == 3, "name of the function")
  n_tr = 0
  for ci, body in itertools.product(calls, BODIES):
    kw = dict(CALLS[ci])
    active = toggle is None or kw.get("flt", toggle[1])
    del args[:]
    with warnings.catch_warnings(record=True) as outer:
      warnings.simplefilter("always")
      before = list(warnings.filters)
      show = warnings.showwarning
      try:
        r = f(body, "m", b=5, c=7, **kw)
      except Boom:
        r = "boom"
      except Warning as w:
        r = str(w)
      after = list(warnings.filters)
      if not (body == "inner_filter" and not active):
        vp.check(after == before, "filters changed by %s (%r)", body, kw)
        vp.check(warnings.showwarning is show, "showwarning changed")
    if toggle is None:
      e_kw = {"c": 7}
    else:
      e_kw = {"c": 7}
    vp.check(args == [(body, ("m",), 5, e_kw)], "arguments %r", args)
    w = {"user": UserWarning, "user_raise": UserWarning,
         "dep": DeprecationWarning}.get(body)
    match = w is not None and (CATS[cat] is None or CATS[cat] is w)
    name = "w2" if body == "dep" else "w1"
    if active and match and act == "error":
      exp, shown = name, 0
    else:
      exp = "boom" if body.endswith("raise") else (body, 5)
      shown = int(w is not None and not (active and match and act == "ignore"))
    vp.check(r == exp, "result %r instead of %r (%s, %r)", r, exp, body, kw)
    inner = []
    if active and tr:
      n_tr += 1
      inner = traces[-1] if rec else []
      vp.check((traces[-1] is None) == (not rec), "trace %r", traces[-1])
    vp.check(len(traces) == n_tr, "%d traces instead of %d", len(traces), n_tr)
    if active and rec:
      if tr:
        vp.check([str(x.message) for x in inner] == [name] * shown,
                 "recorded %r", inner)
      vp.check(not outer, "recorded warnings were shown")
    else:
      vp.check([str(x.message) for x in outer] == [name] * shown,
               "shown %r instead of %d", [str(x.message) for x in outer], shown)
    st.transitions += 1
  return case


# --- Variants -----------------------------------------------------------------------------
VOPS = ["reg_a", "reg_b", "reg_a2", "reg_dflt", "call_none", "call_a", "call_b",
        "call_dflt", "call_this", "call_bad"]


def gen_var(tier):
  top = 4 if tier == "quick" else 5
  for this in (None, "this", "dflt"):
    for form in ("plain", "args"):
      for seq in vp.sequences(VOPS, top):
        yield [this, form, seq]


def run_var(case, st):
  this, form, seq = case

  def main(x, y=1):
    return ("main", x, y)

  kw = {"key": "kind", "default": "dflt"}
  if this is not None:
    kw["this"] = this
  f = (utils.function_with_variants(main, **kw) if form == "plain" else
       utils.function_with_variants(**kw)(main))
  g = utils.function_with_variants(key="kind", default="dflt")(lambda x: 0)
  par = inspect.signature(f).parameters
  vp.check(par["kind"].default == "dflt" and
           par["kind"].kind is inspect.Parameter.KEYWORD_ONLY and
           list(par) == ["x", "y", "kind"], "signature %r", par)
  reg = {} if this is None else {this: "main"}
  for i, op in enumerate(seq):
    verb, what = op.split("_")
    if verb == "reg":
      tag = what + str(i)
      key = what[0] if what != "dflt" else what

      def v(x, y=1, tag=tag):
        return (tag, x, y)

      r = (utils.function_variant(f, key, v) if i % 2 else
           utils.function_variant(f, key)(v))
      vp.check(r is v, "the variant is still available by itself")
      reg[key] = tag
    else:
      k = {} if what == "none" else {"kind": what}
      name = what if what != "none" else "dflt"
      if name in reg:
        vp.check(f(4, y=i, **k) == (reg[name], 4, i), "variant %r", name)
        vp.check(f(4, i, **k) == (reg[name], 4, i), "variant %r", name)
      else:
        e = vp.check_raises(ValueError, lambda k=k: f(4, **k),
                            "missing variant %r" % name)
        vp.check(all("'%s'" % w in str(e) for w in [name, "kind"] + list(reg)),
                 "message %r", e)
    vp.check_raises(ValueError, lambda: g(1), "variants of another function")
    st.transitions += 1
  st.states += 1
  return (this, sorted(reg))


# --- Keyword arguments ------------------------------------------------------------------------
def _f0():
  pass


def _f1(a, b=2):
  pass


def _f2(a, *, k=1, **kw):
  pass


def _f3(a, *args, **kw):
  pass


FUNCS = [_f0, _f1, _f2, _f3]


def gen_kw(tier):
  for f in range(len(FUNCS)):
    for sig in [None] + list(range(len(FUNCS))):
      for name in ("z", "k", "b"):
        for d in (None, 3, "absent"):
          for form in (0, 1):
            yield ["sig", f, sig, name, d, form]
  vals = [None, 0, 1, "s"]
  for a, b in itertools.product(["absent"] + vals, repeat=2):
    for x, y in itertools.product(["absent"] + vals, repeat=2):
      yield ["default", a, b, x, y]
  for c in vp.sequences(["x", 1, None, "a'b"], 3):
    yield ["join", c]


def run_kw(case, st):
  if case[0] == "sig":
    _, fi, si, name, d, form = case

    def copy_of(f):
      sig = inspect.signature(f)

      def g(*a, **k):
        return (a, k)

      g.__signature__ = sig
      return g

    g = copy_of(FUNCS[fi])
    kw = {} if d == "absent" else {"default": d}
    if si is not None:
      kw["sig_func"] = FUNCS[si]
    r = (utils.add_keyword_arg(g, name=name, **kw) if form else
         utils.add_keyword_arg(name=name, **kw)(g))
    vp.check(r is g and r(1, q=2) == ((1,), {"q": 2}), "the function itself")
    old = inspect.signature(FUNCS[fi if si is None else si]).parameters
    new = inspect.signature(r).parameters
    vp.check(new[name].kind is inspect.Parameter.KEYWORD_ONLY and
             new[name].default == (inspect.Parameter.empty if d == "absent" else
                                   d), "new parameter %r", new[name])
    vp.check([p for p in new if p != name] == [p for p in old if p != name],
             "parameters %r from %r", list(new), list(old))
    for p in old:
      if p != name:
        vp.check(new[p] == old[p], "parameter %r changed", p)
    return case
  if case[0] == "default":
    _, a, b, x, y = case
    d = {k: v for k, v in (("a", a), ("b", b)) if v != "absent"}
    df = {k: v for k, v in (("a", x), ("c", y)) if v != "absent"}
    keep, e = dict(d), {**df, **d}
    r = utils.default_kws(d, **df)
    vp.check(r == e and r is not d and d == keep, "%r with defaults %r: %r", d,
             df, r)
    vp.check(utils.default_kws(None, **df) == df, "defaults only")
    return case
  vp.check(utils.comma_join_quote(iter(case[1])) == ", ".join(
      "'%s'" % s for s in case[1]), "joined %r", case[1])
  return case


# --- Names -------------------------------------------------------------------------------------
def gen_name(tier):
  for name in (None, "n"):
    for kind in ("value", "func", "class", "none"):
      yield [name, kind]


def run_name(case, st):
  name, kind = case
  obj = {"value": [1], "func": lambda *a, **k: (a, k), "class": dict,
         "none": None}[kind]
  kw = {} if name is None else {"name": name}
  o = utils.NamedObject(obj, **kw)
  vp.check(o.obj is obj, "wrapped object")
  vp.check(isinstance(o, utils.NamedCallable) == callable(obj) == callable(o),
           "callability of %s", kind)
  vp.check(getattr(o, "__name__", None) == name, "name %r",
           getattr(o, "__name__", None))
  if kind == "func":
    vp.check(o(1, 2, k=3) == ((1, 2), {"k": 3}), "call")
  if kind == "class":
    vp.check(o(k=3) == {"k": 3}, "call")
  return case


# --- Logical arguments: warnings are attributed to the caller -----------------------------------
def gen_loc(tier):
  for depth in (0, 1, 2):
    for pre in (False, True):
      for w in (True, False):
        yield [depth, pre, w]


def run_loc(case, st):
  depth, pre, w = case

  def func(new=1, **kw):
    return (new, kw)

  f = func
  for i in range(depth):
    f = utils.deprecated_argument("unused%d" % i, "x%d" % i)(f)
  f = (utils.deprecated_argument("old_", "", prefix=True, warn=w)(f) if pre else
       utils.deprecated_argument("old_new", "new", warn=w)(f))
  with warnings.catch_warnings(record=True) as rec:
    warnings.simplefilter("always")
    r = f(old_new=5)
    line = inspect.currentframe().f_lineno - 1
  vp.check(r == (5, {}), "result %r", r)
  vp.check(len(rec) == int(w), "%d warnings", len(rec))
  if w:
    vp.check(rec[0].category is SAMPLEDeprecationWarning, "category")
    vp.check(rec[0].filename == __file__ and rec[0].lineno == line,
             "warning shown for %s:%d", rec[0].filename, rec[0].lineno)
  return case


# --- Warnings of a fit --------------------------------------------------------------------------
class Warner(LineThrough):
  kind = ""

  def fit(self, x, y):
    for c in (RuntimeWarning, UserWarning):
      warnings.warn("from " + c.__name__, c)
    if type(self).kind == "raise":
      raise Boom()
    return super().fit(x, y)


def gen_fit(tier):
  for n in range(4):
    for kind in ("ok", "raise"):
      for ign in (None, True, False):
        for twice in (False, True):
          yield [n, kind, ign, twice]


def run_fit(case, st):
  n, kind, ign, twice = case
  ScriptedModel.script = [
      make_track(i, [1, 1, 1], "d", 100. * (i + 1), False) for i in range(n)
  ]
  Warner.kind = kind
  m = SAMPLE(sinusoidal=ScriptedModel(w=np.ones(64), n=128, tracker__fs=1000,
                                      tracker__h=50, tracker__reverse=False),
             regressor=Warner(), regressor_k="slope", regressor_q="level")
  kw = {} if ign is None else {"ignore_warnings": ign}
  hide = ign is not False
  for _ in range(1 + twice):
    with warnings.catch_warnings(record=True) as rec:
      warnings.simplefilter("always")
      before = list(warnings.filters)
      try:
        m.fit(np.zeros(1000), **kw)
        r = "ok"
      except Boom:
        r = "raise"
      vp.check(list(warnings.filters) == before, "filters changed by fit")
    vp.check(r == (kind if n else "ok"), "outcome %r", r)
    k = n if kind == "ok" else min(n, 1)
    got = [str(w.message) for w in rec if str(w.message).startswith("from ")]
    exp = (["from UserWarning"] if hide else ["from RuntimeWarning",
                                              "from UserWarning"]) * k
    vp.check(got == exp, "warnings %r instead of %r", got, exp)
  return case


if __name__ == "__main__":
  vp.main(
      "C21", [("warnings", gen_warn, run_warn, {"chunk": 8}),
              ("variants", gen_var, run_var, {"chunk": 128}),
              ("keywords", gen_kw, run_kw, {"chunk": 64}),
              ("names", gen_name, run_name, {"serial": True}),
              ("fit", gen_fit, run_fit, {"serial": True}),
              ("caller", gen_loc, run_loc, {"serial": True})],
      level="exploration",
      rule="every filter x toggle x call x body (quiet, warning, failing, "
      "changing the filters); every sequence of registrations and calls of "
      "variants; every signature and set of defaults",
      bounds={
          "quick": "one call per body, 4 operations on variants",
          "thorough": "two calls per body, 5 operations on variants"
      },
      assumptions=[])

"""C28: notebook displays"""
import html.parser
import io
import itertools
import json
import re
import time
import wave
from unittest import mock

import numpy as np
import vp
from sample import SAMPLE
from sample import hinge
from sample import ipython
from sample.beatsdrop import decision
from sample.beatsdrop import regression
from sample.beatsdrop import sample as bds
from sample.sms import mm
from sample.sms import sm
from sample.utils import learn
from sklearn import base


# --- Parameters ------------------------------------------------------------------
class Tree(html.parser.HTMLParser):
  """Tree of the collapsible lists: [[text, None or children], ...]"""

  VOID = ("br", "meta", "link", "input")

  def __init__(self, s):
    super().__init__()
    self.root = None
    self.stack = []
    self.lists = []
    self.text = None
    self.feed(s)
    self.close()
    vp.check(not self.stack, "elements not closed: %s", self.stack)

  def handle_starttag(self, tag, attrs):
    attrs = dict(attrs)
    if tag in self.VOID:
      return
    self.stack.append((tag, attrs.get("class")))
    if tag == "body":
      self.root = []
      self.lists = [self.root]
    elif self.root is None:
      return
    elif self.stack[-1] in (("button", "collapsible"),
                            ("div", "noncollapsible")):
      self.text = ""
    elif self.stack[-1] == ("div", "content"):
      vp.check(self.lists[-1] and self.lists[-1][-1][1] is None and
               self.lists[-1][-1][2], "content without a button")
      self.lists[-1][-1][1] = []
      self.lists.append(self.lists[-1][-1][1])

  def handle_data(self, data):
    if self.text is not None:
      self.text += data

  def handle_endtag(self, tag):
    vp.check(self.stack and self.stack[-1][0] == tag,
             "closing %s inside of %s", tag, self.stack)
    k = self.stack.pop()
    if self.root is None:
      return
    if k in (("button", "collapsible"), ("div", "noncollapsible")):
      self.lists[-1].append([" ".join(self.text.split()), None,
                             tag == "button"])
      self.text = None
    elif k == ("div", "content"):
      self.lists.pop()


def tree(m):
  s = ipython.CollapsibleModelParams(m).data
  t = Tree(s).root
  vp.check("{{" not in s and "}}" not in s, "template not filled")
  return strip(t)


def strip(t):
  for x in t:
    vp.check(x[2] == (x[1] is not None), "%s: button without content", x[0])
  return [[x[0], None if x[1] is None else strip(x[1])] for x in t]


# pieces of a description: (in the docstring, as displayed)
WORDS = [
    ("Plain text", "Plain text"),
    ("See :data:`True`", "See True"),
    (":class:`a.b` and :data:`None` apart", "a.b and None apart"),
    (":func:`f` :func:`g`, :func:`h`", "f g, h"),
    ("wrapped\n      on two lines", "wrapped on two lines"),
    ("a role :data:`f(x)\n      -> y` on two lines", "a role f(x) -> y on two lines"),
    ("a :data:`x` role,\n      on :data:`y` lines", "a x role, on y lines"),
    (None, None),
]
NAMES = [("f", "fs"), ("fs", "f"), ("a", "b"), ("x_1", "x")]
DOCS = {
    "full": "Doc\n\n  Args:\n{}",
    "attributes":
    "Doc\n\n  More :data:`text`\n\n  Args:\n{}\n  Attributes:\n    f (int): not"
    " an argument\n    fs: neither",
    "no section": "Doc",
    "none": None,
}


def make(names, docs, style, values):
  """Make an estimator from its documentation"""
  lines = []
  for n, d, (k, w) in zip(names, docs, (("", 0), (" (int)", 1))):
    if d is not None:
      lines.append("    %s%s: %s\n" % (n, k, d))
  doc = DOCS[style]
  if doc is not None:
    doc = doc.format("".join(lines))
  ns = {}
  exec("def __init__(self, %s):\n  %s" %  # pylint: disable=W0122
       (", ".join("%s=None" % n for n in names),
        "\n  ".join("self.%s = %s" % (n, n) for n in names)), ns)
  c = type("Made", (base.BaseEstimator,), {"__init__": ns["__init__"],
                                           "__doc__": doc})
  return c(**dict(zip(names, values)))


class Leaf(base.BaseEstimator):
  """Leaf

  Args:
    p: Parameter"""

  def __init__(self, p=0):
    self.p = p


class Bare(base.BaseEstimator):

  def __init__(self):
    pass


SUB = {"number": lambda: 1, "leaf": Leaf, "bare": Bare}
SUBTREE = {"number": None, "leaf": [["p: Parameter", None]], "bare": []}


def gen_docs(tier):
  for names in NAMES:
    for a, b in itertools.product(range(len(WORDS)), repeat=2):
      for style in DOCS:
        for va, vb in itertools.product(SUB, repeat=2):
          if style == "full" or (va == "number" and vb != "bare"):
            for deep in (False, True):
              yield [list(names), a, b, style, va, vb, deep]


def run_docs(case, st):
  names, a, b, style, va, vb, deep = case
  m = make(names, [WORDS[a][0], WORDS[b][0]], style, [SUB[va](), SUB[vb]()])
  exp = {}
  for n, i, v, k in zip(names, (a, b), (va, vb), ("", " (int)")):
    d = WORDS[i][1]
    if d is None or style in ("none", "no section"):
      d = None
    alt = {n} if d is None else {"%s%s: %s" % (n, k, d)}
    if d is None and style == "attributes":
      # undocumented argument with the name of an attribute
      alt |= {"f (int): not an argument", "fs: neither"}
    exp[n] = (alt, SUBTREE[v])
  t = tree(make(["m"], [None], "none", [m]) if deep else m)
  vp.check(len(t) == 1 and t[0][0] == "Made", "root %s", t)
  t = t[0][1]
  if deep:
    vp.check(len(t) == 1 and t[0][0] == "m", "nested model %s", t)
    t = t[0][1]
  vp.check(len(t) == 2, "%d parameters: %s", len(t), t)
  for n, x in zip(sorted(names), t):
    vp.check(x[0] in exp[n][0], "parameter %s described as %r instead of %r",
             n, x[0], exp[n][0])
    vp.check(x[1] == exp[n][1], "content of %s is %s", n, x[1])
  return repr(t)


REAL = {
    "SAMPLE": SAMPLE,
    "SAMPLEBeatsDROP": bds.SAMPLEBeatsDROP,
    "SinusoidalModel": sm.SinusoidalModel,
    "ModalModel": mm.ModalModel,
    "SineTracker": sm.SineTracker,
    "ModalTracker": mm.ModalTracker,
    "HingeRegression": hinge.HingeRegression,
    "BeatRegression": regression.BeatRegression,
    "DualBeatRegression": regression.DualBeatRegression,
    "BeatDecisor": decision.BeatDecisor,
    "AlmostNotABeatDecisor": decision.AlmostNotABeatDecisor,
    "OptionalStorage": learn.OptionalStorage,
}


def flat(s):
  """Text of a docstring without roles and layout"""
  return " ".join(re.sub(":[a-z]+:`([^`]*)`", r"\1", s or "").split())


def gen_real(tier):
  yield from ([k] for k in REAL)


def walk(m, t, st):
  par = [k for k in sorted(m.get_params(deep=False))]
  vp.check(len(t) == len(par), "%d parameters of %s shown, %d expected",
           len(t), type(m).__name__, len(par))
  doc = flat(type(m).__doc__)
  args = doc.split("Args:", 1)[-1] if "Args:" in doc else ""
  for k, (s, sub) in zip(par, t):
    vp.check(re.match(re.escape(k) + r"(\W|$)", s), "%s described as %s", k, s)
    if s != k:
      vp.check(s in args, "%r is not in the documentation of %s", s,
               type(m).__name__)
    else:
      vp.check(not re.search(r" %s ?(\([^)]*\))?: " % k, args),
               "%s of %s has a description", k, type(m).__name__)
    v = getattr(m, k)
    vp.check((sub is not None) == hasattr(v, "get_params"), "%s nested", k)
    st.count("parameters")
    if sub is not None:
      walk(v, sub, st)
  # descriptions are complete: only roles and layout are lost
  if "Args:" in doc:
    for k, (s, _) in zip(par, t):
      if s != k:
        rest = args[args.index(s) + len(s):].strip()
        vp.check(not rest or re.match(
            r"(\w+ ?(\([^)]*\))?:|\*\*kwargs|Attributes:|Returns:|\.\. )",
            rest), "description of %s cut after %r: %r", k, s, rest[:60])


def run_real(case, st):
  m = REAL[case[0]]()
  t = tree(m)
  vp.check(len(t) == 1 and t[0][0] == case[0], "root %s", t[0][0])
  walk(m, t[0][1], st)
  return repr(t)


# --- Audio player ----------------------------------------------------------------
AUDIO = {
    "one": [.5],
    "mono": [0., -1., 1., .25],
    "ints": [0, 3, -4],
    "stereo": [[0., 1., 2.], [3., 4., 5.]],
    "column": [[1.], [2.]],
    "row": [[1., 2., 3.]],
}


def gen_web(tier):
  for x in AUDIO:
    for form in ("list", "array", "f32", "fortran"):
      for rate in (1, 44100, 22050.5):
        for label in (None, "Play", "a {b} c", "{x}"):
          yield [x, form, rate, label]


def run_web(case, st):
  x, form, rate, label = case
  a = {
      "list": lambda v: v,
      "array": np.array,
      "f32": lambda v: np.array(v, dtype=np.float32),
      "fortran": np.asfortranarray
  }[form](AUDIO[x])
  keep = np.array(a)
  s = ipython.WebAudio(a, rate, **({} if label is None else {"label": label}))
  s = s.data
  m = re.search(r'<button onclick="playAudio\((.*), (.*)\)">(.*)</button>', s)
  vp.check(m, "no button: %s", s[-200:])
  exp = AUDIO[x] if np.ndim(AUDIO[x]) == 2 else [AUDIO[x]]
  vp.check(json.loads(m.group(1)) == exp, "audio %s", m.group(1))
  vp.check(float(m.group(2)) == rate, "rate %s", m.group(2))
  vp.check(m.group(3) == (label or "Play"), "label %s", m.group(3))
  js = s[s.index("<script>"):s.index("</script>")]
  vp.check(js.count("{") == js.count("}") > 0 and "{{" not in js,
           "braces of the script")
  vp.check(np.array_equal(keep, a), "audio modified")
  return repr(m.groups())


# --- Timer -----------------------------------------------------------------------
def gen_time(tier):
  for dt in (0., .0004, .0015, 1.5, 12345.678):
    for title in (None, "", "<h1>T</h1>"):
      for msg in (None, "Took {}!", "x"):
        for unit in (("ms", 1000, 0), ("s", 1, 3), ("min", 1 / 60, 2)):
          for how in ("ok", "fail", "nested"):
            yield [dt, title, msg, list(unit), how]


def run_time(case, st):
  dt, title, msg, (unit, scale, nd), how = case
  now = [100.]
  got = []
  kw = {"unit": unit, "scale": scale, "ndigits": nd}
  if title is not None:
    kw["title"] = title
  if msg is not None:
    kw["msg"] = msg
  with mock.patch.object(time, "time", lambda: now[0]), mock.patch(
      "IPython.display.display", lambda *a, **k: got.append((a, k))):
    e = None
    try:
      with ipython.time_this(**kw) as t0:
        vp.check(t0 == 100., "start time %s", t0)
        if how == "nested":
          with ipython.time_this():
            now[0] += dt
        else:
          now[0] += dt
        if how == "fail":
          raise KeyError("x")
    except KeyError as err:
      e = err
  vp.check((e is not None) == (how == "fail"), "exception %r", e)
  exp = (title or "") + (msg or "Execution time: {}").format(
      "%.*f %s" % (nd, (now[0] - 100.) * scale, unit))
  texts = [a[0].data for a, _ in got]
  if how == "nested":
    vp.check(len(texts) == 2 and texts[0] == "Execution time: %.0f ms" %
             ((now[0] - 100.) * 1000), "inner timer %s", texts)
    texts = texts[1:]
  if how == "fail":
    vp.check(texts in ([], [exp]), "displayed %s", texts)
  else:
    vp.check(texts == [exp], "displayed %s instead of %s", texts, exp)
  return repr((exp, how))


# --- Callback for resynthesis ------------------------------------------------------
SOUNDS = {
    "none": None,
    "list": [0., .5, -1.],
    "loud": [0., 2., -3., .5],
    "quiet": [.1, -.05, .025],
    "silent": [0., 0.],
    "stereo": [[0., .5, 2.], [1., -.25, -4.]],
}


def gen_label(tier):
  for i in (None, 0, 9):
    for k in (None, "", "a", "<b>"):
      for y in SOUNDS:
        for norm in (None, False, True):
          for rate in (8000, 44100):
            for meta in (False, True):
              yield [i, k, y, norm, rate, meta]


def run_label(case, st):
  i, k, yn, norm, rate, meta = case
  y = SOUNDS[yn]
  got = []
  audio = {"rate": rate}
  if norm is not None:
    audio["normalize"] = norm
  hk, dk = ({"metadata": {"a": 1}}, {"display_id": True}) if meta else (None,
                                                                    None)
  keep = repr((audio, hk, dk))
  arr = None if y is None else np.array(y)
  with mock.patch("IPython.display.display",
                  lambda *a, **kws: got.append((a, kws))):
    f = ipython.LabelAndPlayForeach(html_kws=hk, audio_kws=audio,
                                    display_kws=dk)
    for v in (y, arr) if y is not None else (None,):
      f(i, k, v)
      f(i=i, k=k, y=v)
  vp.check(repr((audio, hk, dk)) == keep, "arguments modified")
  if y is not None:
    vp.check(np.array_equal(arr, np.array(y)), "audio modified")
  if i is None and k is None:
    label = None
  elif i is None:
    label = k
  elif not k:
    label = str(i + 1)
  else:
    label = "%d - %s" % (i + 1, k)
  if label is None and y is None:
    vp.check(not got, "something displayed")
    return "nothing"
  vp.check(len(got) == (4 if y is not None else 2), "%d displays", len(got))
  for a, kws in got:
    vp.check(kws == (dk or {}), "display options %s", kws)
    a = list(a)
    if label is not None:
      w = a.pop(0)
      vp.check(w.data == "<h1>%s</h1>" % label, "label %s", w.data)
      vp.check((w.metadata or {}) == (hk or {}).get("metadata", {}), "options")
    if y is not None:
      w = a.pop(0)
      with wave.open(io.BytesIO(w.data)) as f:
        n, ch, r, wd = (f.getnframes(), f.getnchannels(), f.getframerate(),
                        f.getsampwidth())
        d = np.frombuffer(f.readframes(n), dtype="<i2").reshape(n, ch).T
      vp.check(r == rate and wd == 2, "rate %s", r)
      e = np.atleast_2d(np.array(y))
      peak = np.max(np.abs(e)) or 1
      e = e / peak if norm else np.clip(e, -1, 1)
      vp.check(d.shape == e.shape and
               np.max(np.abs(d - e * 32767)) <= 1.0001,
               "samples %s instead of %s", d.tolist(), (e * 32767).tolist())
    vp.check(not a, "more widgets: %s", a)
  return repr((label, yn, norm, rate, meta))


if __name__ == "__main__":
  vp.main(
      "C28", [("descriptions", gen_docs, run_docs, {"chunk": 32}),
              ("models", gen_real, run_real),
              ("player", gen_web, run_web, {"chunk": 16}),
              ("timer", gen_time, run_time, {"chunk": 16}),
              ("labels", gen_label, run_label, {"chunk": 16})],
      level="exploration",
      rule="every pair of forms of description x names x docstring layout x "
      "nesting; every model of the package; every form of audio and label; "
      "every elapsed time, format and outcome of the timed code",
      bounds={"quick": "2 parameters per model, depth 3",
              "thorough": "the same"},
      assumptions=["displays are captured instead of shown"])

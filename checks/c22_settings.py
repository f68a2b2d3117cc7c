"""C22: settings of the GUI: parsing, normalisation, persistence, model parameters"""
import itertools
import json
import math
import os
import shutil
import tempfile

import faketk
import numpy as np
import vp
from scipy import signal

with vp.quiet_stdout():
  from sample.widgets import audioload, main, sample as gsample, settings, userfiles

SPEC = dict(settings._settings)
NAMES = [k for k, v in settings._settings if not v.get("is_spacer")]


# --- Oracle ---------------------------------------------------------------------------
def num(x):
  try:
    return float(x)
  except ValueError:
    return None


def pos_int(d):

  def f(x):
    v = num(x)
    if v is None or math.isnan(v) or v == math.inf:
      return d
    return 1 if v < 1 else math.floor(v)

  return f


def pow2(x):
  v = pos_int(1)(x)
  p = 1
  while p < v:
    p *= 2
  return p


def real(x):
  v = num(x)
  return 0. if v is None else v


def clip(lo, hi, d):

  def f(x):
    v = num(x)
    if v is None:
      return d
    if math.isnan(v):
      return ...  # anything in the bounds
    if v < lo:
      return lo
    return hi if hi is not None and v > hi else v

  f.bounds = (lo, hi)
  return f


def strip(x):
  v = num(x)
  return v if v is not None and v > 0 else None


P = "sinusoidal__tracker__"
PARSE = {
    "max_n_modes": pos_int(None),
    P + "max_n_sines": pos_int(1),
    "sinusoidal__n": pow2,
    P + "h": pos_int(1),
    "wsize": pos_int(1),
    P + "freq_dev_offset": real,
    P + "freq_dev_slope": real,
    "smfb_0": real,
    "smfb_1": real,
    P + "peak_threshold": real,
    "sinusoidal__t": real,
    P + "min_sine_dur": clip(0, None, .1),
    P + "strip_t": strip,
    "n_jobs": pos_int(4),
    "beat_decisor__th": clip(0, None, 4),
    "beatsdrop__lpf": clip(2, 50, 12),
}
BOOLS = [P + "reverse", "sinusoidal__padded", "beatsdrop", "parallel"]
INIT = {
    "max_n_modes": None, P + "max_n_sines": 64, "sinusoidal__n": 4096, P + "h": 1024,
    "wsize": 4096, "wtype": "blackman", P + "freq_dev_offset": 20.,
    P + "freq_dev_slope": .0025, "smfb_0": 20., "smfb_1": 16000.,
    P + "peak_threshold": -66., "sinusoidal__t": -90., P + "min_sine_dur": .1,
    P + "strip_t": .5, P + "reverse": True, "sinusoidal__padded": False,
    "beatsdrop": False, "parallel": False, "n_jobs": 4, "beat_decisor__th": 4.,
    "beatsdrop__lpf": 12., "gui_theme": "radiance",
}  # yapf: disable
WTYPES = SPEC["wtype"]["options"]
THEMES = list(SPEC["gui_theme"]["options"])
TEXTS = ["", " ", "0", "1", "2", "3", "4.7", "0.3", "-1", "-0.5", "-120", "+7", " 12 ",
         "1e2", "64", "100", "1000", "4095", "4096", "4097", "22050.5", "None", "abc",
         "1,5", "0x10", "1 2", "-inf", "50.01", "1.999999", "1e-9", "True", "--1", "1e"]
ODD = ["nan", "inf", "infinity", "NaN", "1e400"]


def normal(raw):
  """Normalised settings and model parameters of what is in the entries"""
  s = {}
  for k in NAMES:
    v = raw[k]
    s[k] = PARSE[k](v) if k in PARSE and isinstance(v, str) else v
  return finish(s)


def finish(s):
  s = dict(s)
  if s["smfb_0"] == s["smfb_1"]:
    s["smfb_0"], s["smfb_1"] = 20, 16000
  elif s["smfb_0"] > s["smfb_1"]:
    s["smfb_0"], s["smfb_1"] = s["smfb_1"], s["smfb_0"]
  s["wsize"] = min(s["wsize"], s["sinusoidal__n"])
  p = {k: v for k, v in s.items() if k not in ("smfb_0", "smfb_1", "wsize", "wtype",
                                               "parallel", "gui_theme")}
  p[P + "frequency_bounds"] = (s["smfb_0"], s["smfb_1"])
  p["n_jobs"] = s["n_jobs"] if s["parallel"] else 0
  p["sinusoidal__w"] = (s["wtype"], s["wsize"])
  return s, p


def same(a, b):
  if b is ...:
    return True
  if isinstance(b, bool) or b is None or isinstance(b, str):
    return type(a) is type(b) and a == b
  if isinstance(b, tuple):
    return len(a) == len(b) and all(map(same, a, b))
  if isinstance(b, int):
    return isinstance(a, int) and not isinstance(a, bool) and a == b or (
        isinstance(a, float) and a == b)
  return not isinstance(a, bool) and float(a) == b


def check_params(got, exp, what):
  vp.check(set(got) == set(exp), "%s: parameters %r instead of %r", what, sorted(got),
           sorted(exp))
  for k, v in exp.items():
    if k == "sinusoidal__w":
      w = np.asarray(got[k])
      vp.check(w.shape == (v[1],), "%s: window of %r samples instead of %d", what, w.shape,
               v[1])
      vp.check(
          np.allclose(w, signal.get_window(v[0], v[1]), rtol=1e-12, atol=1e-15),
          "%s: not a %s window of %d samples", what, *v)
    else:
      vp.check(same(got[k], v), "%s: %s = %r instead of %r", what, k, got[k], v)


INTS = {k for k in ("max_n_modes", P + "max_n_sines", "sinusoidal__n", P + "h", "wsize",
                    "n_jobs")}


def check_settings(tab, exp, what):
  for k, v in exp.items():
    if v is ...:
      continue
    g = tab._settings[k].var.get()
    if isinstance(v, bool):
      vp.check(g is v, "%s: %s shows %r instead of %r", what, k, g, v)
    elif v is None:
      vp.check(PARSE[k](g) is None, "%s: %s shows %r", what, k, g)
    elif isinstance(v, str):
      vp.check(g == v, "%s: %s shows %r instead of %r", what, k, g, v)
    else:
      vp.check(num(g) == v, "%s: %s shows %r instead of %r", what, k, g, v)
      if k in INTS:
        vp.check("." not in g, "%s: %s shows %r", what, k, g)


class World:
  """Persistent directory of a user"""

  def __init__(self, content=None, valid=True):
    self.d = tempfile.mkdtemp(prefix="vp_c22_")
    self.dir = userfiles.UserDir(os.path.join(self.d, "u") if valid else None)
    self.path = os.path.join(self.d, "u", "settings.json")
    if content is not None:
      os.makedirs(os.path.join(self.d, "u"))
      with open(self.path, "w", encoding="utf-8") as f:
        f.write(content if isinstance(content, str) else json.dumps(content))

  def __enter__(self):
    return self

  def __exit__(self, *a):
    shutil.rmtree(self.d)

  def saved(self):
    with open(self.path, encoding="utf-8") as f:
      return json.load(f)

  def tab(self, **attrs):
    r, nb = faketk.root(persistent_dir=self.dir,
                        settings_file=self.dir.user_file("settings.json"),
                        audio_cache_file=self.dir.user_file("audio.cache"), **attrs)
    t = settings.SettingsTab(nb)
    t.vp_root, t.vp_nb = r, nb
    return t


def entries(tab):
  return {k: tab._settings[k].var.get() for k in NAMES}


def apply(g, tab, what):
  faketk.click(faketk.by_text(tab, "Apply"))
  vp.check(not g.errors, "%s: Apply failed with %r", what, g.errors)


def verify(g, w, tab, s, p, what):
  check_params(tab.sample_object_kwargs, p, what)
  check_settings(tab, s, what)
  j = w.saved()
  vp.check(set(j) == set(NAMES), "%s: saved %r", what, sorted(j))
  for k, v in s.items():
    vp.check(same(j[k], v), "%s: saved %s = %r instead of %r", what, k, j[k], v)


def equal(a, b):
  if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
    return a == b
  if isinstance(a, bool) != isinstance(b, bool):
    return False
  return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


def shown(e):
  """Value of the text of an entry"""
  if isinstance(e, str):
    if e in ("", "None"):
      return None
    v = num(e)
    return e if v is None else v
  return e


def fixpoint(g, w, tab, what):
  """Apply again and restart: nothing changes"""
  before = dict(tab.sample_object_kwargs)
  e = entries(tab)
  j = w.saved()
  for again in ("second Apply", "restart"):
    if again == "restart":
      tab = w.tab()
    else:
      apply(g, tab, what)
    q = tab.sample_object_kwargs
    vp.check(set(q) == set(before), "%s: %s changes the parameters", what, again)
    for k, v in before.items():
      vp.check(equal(v, q[k]),
               "%s: %s turns %s from %r to %r", what, again, k, v, q[k])
    e2 = entries(tab)
    diff = {k: (e[k], e2[k]) for k in e if not equal(shown(e[k]), shown(e2[k]))}
    vp.check(not diff, "%s: %s turns the entries %r", what, again, diff)
    j2 = w.saved()
    vp.check(set(j) == set(j2) and all(equal(j[k], j2[k]) for k in j),
             "%s: %s changes the file", what, again)


# --- One or two entries edited ---------------------------------------------------------
GROUPS = [("sinusoidal__n", "wsize"), ("smfb_0", "smfb_1"), ("n_jobs", "wsize")]
GT = ["", "0", "1", "3", "20", "100", "1000", "4096", "16000", "x", "-5", "7.9", "1e4"]


def gen_entries(tier):
  yield {}
  for k in PARSE:
    for t in TEXTS:
      yield {k: t}
  for k in BOOLS:
    for b in (False, True):
      yield {k: b}
  for t in WTYPES:
    yield {"wtype": t}
    for n in ("1", "2", "17", "256"):
      yield {"wtype": t, "wsize": n}
  for par in (False, True):
    for t in TEXTS:
      yield {"parallel": par, "n_jobs": t}
  for a, b in GROUPS:
    for x, y in itertools.product(GT, GT):
      yield {a: x, b: y}
  if tier != "quick":
    for a, b in itertools.combinations(PARSE, 2):
      for x, y in itertools.product(GT, GT):
        yield {a: x, b: y}
    for bs in itertools.product((False, True), repeat=len(BOOLS)):
      yield dict(zip(BOOLS, bs))


def run_entries(case, st):
  with faketk.session() as g, World() as w:
    tab = w.tab()
    s, p = normal({**INIT})
    verify(g, w, tab, s, p, "first start")
    for k, t in case.items():
      tab._settings[k].var.set(t)
    s, p = normal({**INIT, **case})
    apply(g, tab, repr(case))
    verify(g, w, tab, s, p, repr(case))
    fixpoint(g, w, tab, repr(case))
    vp.check(not [b for b in g.boxes if b[0] != "showwarning"], "%r", g.boxes)
    check_model(tab.sample_object_kwargs, p, case)
    st.count("applies", 3)
  return sorted(case)


def check_model(kw, p, what, n_jobs=True):
  if p["sinusoidal__n"] > 1 << 20:
    return
  m, fit = gsample.sample_factory(sinusoidal__tracker__fs=321., progressbar=None, **kw)
  vp.check(fit["n_jobs"] == p["n_jobs"], "%r: n_jobs %r", what, fit["n_jobs"])
  bd = p["beatsdrop"]
  vp.check(type(m).__name__ == ("SAMPLEBeatsDROP" if bd else "SAMPLE"), "%r: %r", what, m)
  q = m.get_params()
  exp = {**p, P + "fs": 321., "sinusoidal__intermediate__save": True}
  for k, v in exp.items():
    if k in ("beatsdrop", "n_jobs") or k.startswith("beat") and not bd:
      continue
    if k == "sinusoidal__w":
      vp.check(len(q[k]) == v[1], "%r: window", what)
    else:
      vp.check(same(q[k], v), "%r: the model has %s = %r instead of %r", what, k, q[k], v)
  if bd:
    vp.check(q["beat_decisor__intermediate__save"] is True, "intermediate results")
  # what was not set keeps its default
  dflt = type(m)().get_params()
  for k, v in dflt.items():
    if k in exp or k == "beat_decisor__intermediate__save":
      continue
    if isinstance(v, (int, float, str, bool, tuple)) or v is None:
      vp.check(same(q[k], v), "%r: the model has %s = %r instead of %r", what, k, q[k], v)


# --- Numbers that are no numbers ---------------------------------------------------------
def gen_odd(tier):
  for k in PARSE:
    for t in ODD:
      yield [k, t]


def run_odd(case, st):
  k, t = case
  with faketk.session() as g, World() as w:
    tab = w.tab()
    tab._settings[k].var.set(t)
    apply(g, tab, repr(case))
    v = w.saved()[k]
    if k in INTS:
      vp.check(v is None and k == "max_n_modes" or isinstance(v, int) and v >= 1,
               "%r: saved %r", case, v)
    b = getattr(PARSE[k], "bounds", None)
    if b is not None:
      vp.check(v >= b[0] and (b[1] is None or v <= b[1]), "%r: saved %r", case, v)
    fixpoint(g, w, tab, repr(case))
  return [k in INTS, v is None]


# --- Saved files -------------------------------------------------------------------------
OTHER = {
    "max_n_modes": 5, P + "max_n_sines": 7, "sinusoidal__n": 512, P + "h": 64,
    "wsize": 100, "wtype": "hann", P + "freq_dev_offset": 1.5, P + "freq_dev_slope": .5,
    "smfb_0": 30., "smfb_1": 70.5, P + "peak_threshold": -1., "sinusoidal__t": -2.,
    P + "min_sine_dur": .25, P + "strip_t": None, P + "reverse": False,
    "sinusoidal__padded": True, "beatsdrop": True, "parallel": True, "n_jobs": 2,
    "beat_decisor__th": 1., "beatsdrop__lpf": 3., "gui_theme": "black",
}  # yapf: disable


def gen_files(tier):
  yield [NAMES, {}]
  yield [[], {}]
  for k in NAMES:
    yield [[k], {}]
    yield [[j for j in NAMES if j != k], {}]
  for a, b in itertools.combinations(NAMES, 2):
    yield [[a, b], {}]
    if tier != "quick":
      yield [[j for j in NAMES if j not in (a, b)], {}]
  for th in THEMES + ["", "nope", "Arc"]:
    yield [NAMES, {"gui_theme": th}]
  yield [NAMES, {"legacy": 3}]
  yield [NAMES, {"wtype": "no_such_window"}]
  yield [NAMES, {"wsize": 10**6}]
  yield [NAMES, {"smfb_0": 80.}]
  yield [NAMES, {"smfb_0": 70.5}]


def run_files(case, st):
  keys, extra = case
  content = {**{k: OTHER[k] for k in keys}, **extra}
  known = {k: v for k, v in content.items() if k in NAMES}
  with faketk.session() as g, World(content) as w:
    tab = w.tab()
    raw = {**INIT, **known}
    if raw["gui_theme"] not in THEMES:
      raw["gui_theme"] = "radiance"
    if raw["wtype"] not in WTYPES:
      raw["wtype"] = "blackman"
    s, p = finish(raw)
    verify(g, w, tab, s, p, repr(case))
    fixpoint(g, w, tab, repr(case))
    vp.check(not [b for b in g.boxes if b[0] == "askyesno"] and not tab.vp_root.should_reload,
             "%r: starting asks %r", case, g.boxes)
  return len(keys)


# --- Histories ---------------------------------------------------------------------------
EDITS = [("wsize", "100"), ("sinusoidal__n", "60"), ("smfb_0", "17000"), ("smfb_1", "20"),
         ("parallel", True), ("beatsdrop", True), (P + "strip_t", "-3"),
         ("max_n_modes", "4"), ("max_n_modes", "x"), ("n_jobs", "0")]
HOPS = [["edit", i] for i in range(len(EDITS))] + [["apply"], ["restart"]]


def gen_hist(tier):
  n = 3 if tier == "quick" else 4
  for seq in itertools.product(range(len(HOPS)), repeat=n):
    if HOPS[seq[-1]][0] != "edit":
      yield list(seq)


def run_hist(case, st):
  with faketk.session() as g, World() as w:
    tab = w.tab()
    s, p = normal({**INIT})
    shown, saved, params = dict(s), s, p
    for k, i in enumerate(case):
      op = HOPS[i]
      what = [HOPS[j] for j in case[:k + 1]]
      if op[0] == "edit":
        n, t = EDITS[op[1]]
        tab._settings[n].var.set(t)
        shown[n] = t
        check_params(tab.sample_object_kwargs, params, "%r" % what)
        continue
      if op[0] == "apply":
        apply(g, tab, "%r" % what)
        saved, params = normal(shown)
      else:
        tab = w.tab()
        saved, params = finish(saved)
      shown = dict(saved)
      verify(g, w, tab, saved, params, "%r" % what)
      st.transitions += 1
    st.states += len(case) + 1
    st.traces += 1
  return sorted(map(repr, saved.items()))


# --- Change of theme ---------------------------------------------------------------------
AUDIO = [None, [3, 300, 1, 3], [5, 44100, 0, 5]]


def gen_theme(tier):
  themes = ["radiance", "black", "arc"] if tier == "quick" else THEMES[:8] + ["radiance"]
  for old, new in itertools.product([None] + themes, themes):
    for yes in (False, True):
      for a in AUDIO:
        for valid in (True, False):
          yield [old, new, yes, a, valid]


def run_theme(case, st):
  old, new, yes, a, valid = case
  content = None if old is None else {"gui_theme": old}
  with faketk.session() as g, World(content) as w:
    g.answers["askyesno"] = yes
    attrs = dict.fromkeys(("audio_x", "audio_sr", "audio_trim_start", "audio_trim_stop"))
    if a is not None:
      attrs = dict(audio_x=np.linspace(-1, 1, a[0]), audio_sr=a[1], audio_trim_start=a[2],
                   audio_trim_stop=a[3])
    tab = w.tab(**attrs)
    if not valid:
      tab.vp_nb.audio_cache_file = userfiles.UserDir("").user_file("audio.cache")
    g.boxes.clear()
    tab._settings["gui_theme"].var.set(new)
    quits = []
    tab.vp_nb.quit = lambda: quits.append(1)
    apply(g, tab, repr(case))
    asked = [b for b in g.boxes if b[0] == "askyesno"]
    changed = new != (old or "radiance")
    vp.check(len(asked) == int(changed), "%r: asked %r", case, g.boxes)
    vp.check(w.saved()["gui_theme"] == new, "%r: saved %r", case, w.saved()["gui_theme"])
    vp.check(userfiles.UserTtkTheme(tab.settings_file).get() == new, "theme")
    go = changed and yes
    vp.check(bool(quits) == go and bool(tab.vp_root.should_reload) == go,
             "%r: reload %r %r", case, quits, tab.vp_root.should_reload)
    cache = os.path.join(w.d, "u", "audio.cache")
    vp.check(os.path.exists(cache) == (go and valid), "%r: cache", case)
    apply(g, tab, repr(case))
    vp.check(len([b for b in g.boxes if b[0] == "askyesno"]) == int(changed),
             "%r: asks again", case)
    if go and valid:
      # the next GUI resumes the session, and only that one
      for k in range(2):
        gui = main.SAMPLEGUI(persistent_dir=w.dir)
        vp.check(gui.tk.eval("set ::vp_theme") == new, "theme of the GUI")
        t = next(t for t in gui.tabs if isinstance(t, audioload.AudioLoadTab))
        for n, v in attrs.items():
          u = getattr(t, n)
          e = v if k == 0 else None
          vp.check((u is None) if e is None else np.array_equal(u, e),
                   "%r: restart %d has %s = %r instead of %r", case, k, n, u, e)
        vp.check(not os.path.exists(cache), "%r: the cache was not cleared", case)
        gui.destroy()
    vp.check(not g.errors, "%r: %r", case, g.errors)
  return [changed, go, a is None]


# --- Text selections ---------------------------------------------------------------------
def gen_sel(tier):
  yield 0


def run_sel(case, st):
  with faketk.session() as g, World() as w:
    gui = main.SAMPLEGUI(persistent_dir=w.dir)
    gui.tk.eval("set ::vp_log {}")
    faketk.click(gui.notebook, "<<NotebookTabChanged>>")
    log = gui.tk.splitlist(gui.tk.eval("set ::vp_log"))
    cleared = {gui.tk.splitlist(c)[0] for c in log if "selection clear" in c}
    tab = next(t for t in gui.tabs if isinstance(t, settings.SettingsTab))
    miss = [k for k in PARSE if str(tab._settings[k].entry) not in cleared]
    vp.check(not miss, "changing tab leaves the selection of %r", miss)
    vp.check(not g.errors, "%r", g.errors)
    gui.destroy()
  return len(cleared)


# --- Parsers --------------------------------------------------------------------------
PTEXTS = ["", "x", "0", "1", "-1", "-0.0", "2.5", "3", "7", "8", "9.7", "1e400", "-inf",
         "nan", " 4 ", "1_0", "0x10", "true", "TRUE", "f", "F", "False", "falSE", "no", "0.0",
         "-3.5", "1e3", "4097"]
PBOUNDS = [None, -2., 0., 3., 8.]


def gen_parse(tier):
  for t in PTEXTS:
    yield ["bool", t]
    yield ["power", t]
    for d in (None, 1, 5):
      yield ["int", t, d]
    for d in (None, 0., "d"):
      yield ["try", t, d]
    for l, r in itertools.product(PBOUNDS, repeat=2):
      if l is None or r is None or l <= r:
        for d in (None, 0., 5.):
          yield ["clip", t, l, r, d]


def run_parse(case, st):
  """Each parser gives the documented value for each text"""
  k, t = case[:2]
  v = num(t)
  if k == "bool":
    got = settings.custom_bool(t)
    e = t.lower() not in ("false", "f", "") and (v is None or v != 0)
  elif k == "power":
    got = settings.next_power_of_2(t)
    ok = v is not None and v >= 1 and math.isfinite(v)
    e = next(1 << i for i in range(64) if 1 << i >= (math.floor(v) if ok else 1))
  elif k == "int":
    got = settings.custom_positive_int(t, case[2])
    if v is None or math.isinf(v) and v > 0 or math.isnan(v):
      e = case[2]
    else:
      e = max(1, int(v)) if math.isfinite(v) else 1
  elif k == "try":
    got = settings.try_func(float, ValueError, case[2])(t)
    e = case[2] if v is None else v
    vp.check_raises(ValueError, lambda: settings.try_func(
        lambda x: float(x + "?"), TypeError, 0.)(t), "another exception is hidden")
  else:
    l, r, d = case[2:]
    kw = {a: b for a, b in zip(("left", "right", "default"), (l, r, d)) if b is not None}
    got = settings.float_clip(**kw)(t)
    if v is None:
      e = (d if d is not None else (l + r) / 2 if l is not None and r is not None else l if
           l is not None else r if r is not None else 0)
    elif math.isnan(v):
      vp.check(math.isnan(got) or (l is None or got >= l) and (r is None or got <= r),
               "%r clipped to %r", t, got)
      return repr(case)
    else:
      e = min(max(v, -math.inf if l is None else l), math.inf if r is None else r)
  vp.check(got == e or got is e or got != got and e != e, "%r parsed as %r instead of %r", t,
           got, e)
  vp.check(k not in ("bool", "int", "power") or type(got) is type(e), "%r parsed as %r", t,
           got)
  return repr(case)


vp.main(
    "C22",
    [("entries", gen_entries, run_entries, {"chunk": 16}),
     ("odd numbers", gen_odd, run_odd), ("files", gen_files, run_files, {"chunk": 16}),
     ("histories", gen_hist, run_hist, {"chunk": 32}), ("theme", gen_theme, run_theme),
     ("parsers", gen_parse, run_parse, {"chunk": 64}),
     ("selections", gen_sel, run_sel, {"serial": True})],
    level="model_checking",
    rule="every entry with every text of an alphabet, every pair within the groups of "
    "settings that are processed together, every saved file with one, two, all or all "
    "but one or two settings, every sequence of edits, applications and restarts, every "
    "change of theme, on the real tab",
    bounds={
        "quick": "16 entries x 33 texts, pairs of 13 texts, histories of 3 operations",
        "thorough": "pairs of all entries, histories of 4 operations, 9 themes"
    },
    assumptions=["Tk is replaced with a recorder; variables and callbacks are those of "
                 "the real tkinter on a real Tcl interpreter"])

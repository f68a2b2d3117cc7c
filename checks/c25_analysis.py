"""C25: analysis, resynthesis and exports of the GUI"""
import contextlib
import io
import itertools
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading

import faketk
import numpy as np
import vp
import workers
from sample.beatsdrop import sample as bds
from sample.sample import SAMPLE
from sample.widgets import analysis, audioload, sample as gsample, settings, userfiles
from scipy.io import wavfile


# --- Reference -----------------------------------------------------------------------
def tone(n, sr, *fa):
  t = np.arange(n) / sr
  return sum(a * np.exp(-d * t) * np.sin(2 * np.pi * f * t) for f, a, d in fa)


AUDIO = [(1000, tone(600, 1000, (110, .8, 3), (220, .5, 5))),
         (2000, tone(500, 2000, (150, .7, 8))),
         (1000, np.zeros(300))]
RAW = [(sr, np.round(x * 30000).astype(np.int16)) for sr, x in AUDIO]
BASE = {"sinusoidal__n": "64", "wsize": "64", "sinusoidal__tracker__h": "16",
        "smfb_1": "900", "smfb_0": "5", "sinusoidal__tracker__min_sine_dur": "0.05"}
VARIANTS = [{}, {"max_n_modes": "1"}, {"sinusoidal__tracker__reverse": False},
            {"beatsdrop": True}, {"sinusoidal__tracker__max_n_sines": "1"},
            {"beatsdrop": True, "parallel": True, "n_jobs": "2"}]
_MEMO = {}


def region(audio, trim):
  sr, raw = RAW[audio]
  x = raw / 32768.
  return sr, x[trim[0]:trim[1]]


def reference(audio, trim, var):
  """What the library finds in that region with these settings; None if it fails"""
  key = (audio, trim, var)
  if key not in _MEMO:
    from scipy import signal
    sr, x = region(audio, trim)
    v = VARIANTS[var]
    cls = bds.SAMPLEBeatsDROP if v.get("beatsdrop") else SAMPLE
    m = cls(sinusoidal__n=64, sinusoidal__w=signal.get_window("blackman", 64),
            sinusoidal__tracker__h=16, sinusoidal__tracker__fs=sr,
            sinusoidal__tracker__frequency_bounds=(5., 900.),
            sinusoidal__tracker__min_sine_dur=.05, sinusoidal__tracker__strip_t=.5,
            sinusoidal__tracker__peak_threshold=-66., sinusoidal__t=-90.,
            sinusoidal__tracker__max_n_sines=int(
                v.get("sinusoidal__tracker__max_n_sines", 64)),
            sinusoidal__tracker__reverse=v.get("sinusoidal__tracker__reverse", True),
            sinusoidal__tracker__freq_dev_offset=20.,
            sinusoidal__tracker__freq_dev_slope=.0025,
            max_n_modes=int(v["max_n_modes"]) if "max_n_modes" in v else None)
    if v.get("beatsdrop"):
      m.set_params(beat_decisor__th=4, beatsdrop__lpf=12)
    try:
      m.fit(x)
    except Exception as e:  # pylint: disable=W0703
      m = None
    _MEMO[key] = m
  return _MEMO[key]


def resynth(m, n, sr):
  return np.clip(m.predict(np.arange(n) / sr), -1, 1)


class Model:

  def __init__(self):
    self.audio = self.trim = None
    self.var = 0
    self.model = None  # key of the current analysis
    self.rs = None  # (samples, rate) of the cached resynthesis

  def load(self, i, trim):
    self.audio, self.trim = i, trim
    self.rs = None


class World:

  def __init__(self, g):
    self.g = g
    self.d = tempfile.mkdtemp(prefix="vp_c25_")
    self.ud = userfiles.UserDir(os.path.join(self.d, "u"))
    self.root, self.nb = faketk.root(persistent_dir=self.ud,
                                     settings_file=self.ud.user_file("settings.json"),
                                     audio_cache_file=self.ud.user_file("audio.cache"))
    self.load_tab = audioload.AudioLoadTab(self.nb)
    self.settings = settings.SettingsTab(self.nb)
    self.tab = analysis.AnalysisTab(self.nb)
    self.variant(0)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    shutil.rmtree(self.d)

  def variant(self, v):
    s = self.settings._settings
    vals = {**BASE, "max_n_modes": "", "sinusoidal__tracker__reverse": True,
            "beatsdrop": False, "parallel": False, "sinusoidal__tracker__max_n_sines": "64", **VARIANTS[v]}
    for k, t in vals.items():
      s[k].var.set(t)
    faketk.click(faketk.by_text(self.settings, "Apply"))

  def load(self, i):
    p = os.path.join(self.d, "a%d.wav" % i)
    wavfile.write(p, *RAW[i])
    self.g.answers["askopenfilename"] = p
    faketk.click(faketk.by_text(self.load_tab, "Load"))
    return (int(self.nb.audio_trim_start), int(self.nb.audio_trim_stop))

  def trim(self, a, b):
    self.load_tab.set_trim(0, True)
    self.load_tab.set_trim(b, False)
    self.load_tab.set_trim(a, True)

  def press(self, text):
    faketk.click(faketk.by_text(self.tab, text))

  def take(self):
    b, p = list(self.g.boxes), list(self.g.played)
    self.g.boxes.clear()
    self.g.played.clear()
    return [k[0] for k in b], p


def played(p):
  w = [q[1] for q in p if q[0] == "load"]
  if not w:
    return None
  vp.check([q[0] for q in p][-2:] == ["load", "play"], "played %r", [q[0] for q in p])
  return wavfile.read(io.BytesIO(w[-1]))


def same_model(a, b, what):
  vp.check(type(a).__name__ == type(b).__name__, "%s: %r", what, a)
  vp.check_close(a.param_matrix_, b.param_matrix_, "%s: modes" % what, rtol=1e-9)


def jdict(m):
  return json.loads(json.dumps(m.sdt_params_()))


# --- Histories -------------------------------------------------------------------------
OPS = [["load", 0], ["load", 1], ["trim", 0, 60], ["trim", 30, 36], ["settings", 1],
       ["settings", 3], ["analyze"], ["play"], ["play resynth"], ["wav"], ["json"],
       ["wav cancel"], ["wav fail"], ["json fail"]]
CORE = [0, 1, 2, 3, 4, 6, 8, 9, 10]


def gen_hist(tier):
  n = 2 if tier == "quick" else 3
  for first in ([], [0], [0, 6]):
    for seq in itertools.product(range(len(OPS)), repeat=n):
      yield first + list(seq)
  for first in ([0], [0, 6]):
    for seq in itertools.product(CORE, repeat=n + 1):
      yield first + list(seq)


def run_hist(case, st):
  with faketk.session() as g, World(g) as w:
    vp.check(not g.errors, "%r", g.errors)
    w.take()
    m = Model()
    for k, i in enumerate(case):
      step(w, m, OPS[i], "%r" % [OPS[j] for j in case[:k + 1]])
      st.transitions += 1
    st.states += len(case) + 1
    st.traces += 1
    return [m.model, m.rs, m.var]


def expected_resynth(m):
  """Samples which are played or exported, or None"""
  if m.audio is None or m.model is None:
    return None
  if m.rs is None:
    m.rs = (m.trim[1] - m.trim[0], RAW[m.audio][0])
  return resynth(reference(*m.model), *m.rs)


def step(w, m, op, what):
  g = w.g
  if op[0] == "load":
    m.load(op[1], w.load(op[1]))
    a, b = m.trim
    vp.check(0 <= a < b <= len(RAW[op[1]][1]), "%s: selected %r", what, m.trim)
  elif op[0] == "trim":
    w.trim(op[1], op[2])
    if m.audio is not None:
      m.trim = (op[1], op[2])
  elif op[0] == "settings":
    w.variant(op[1])
    m.var = op[1]
  elif op[0] == "analyze":
    w.press("Analyze")
    boxes, _ = w.take()
    if m.audio is None:
      vp.check(boxes == ["showerror"], "%s: %r", what, boxes)
    else:
      key = (m.audio, m.trim, m.var)
      ref = reference(*key)
      if ref is None:
        vp.check(boxes == ["showerror"], "%s: %r", what, boxes)
      else:
        vp.check(boxes == [], "%s: %r", what, boxes)
        m.model = key
        m.rs = None
        vp.check(not g.errors, "%s: failed with %r", what, g.errors)
        exp = expected_resynth(m)
        same_model(w.nb.sample_object, ref, what)
        ax = w.tab.plt.fig.axes
        vp.check(w.tab.plt.canvas.draws > 0, "%s: nothing is drawn", what)
        li = ax[2].lines
        sr, x = region(m.audio, m.trim)
        vp.check(len(li) == 2, "%s: %d lines", what, len(li))
        vp.check_close(li[0].get_ydata(), x, "%s: original" % what, rtol=1e-6, atol=1e-9)
        vp.check_close(li[1].get_ydata(), exp, "%s: resynthesis" % what, rtol=1e-6,
                       atol=1e-9)
        vp.check_close(li[1].get_xdata(), np.arange(len(x)) / sr, "%s: time" % what)
        n = len(ax[2].lines)
  elif op[0] == "play":
    w.press("Play Original")
    boxes, p = w.take()
    if m.audio is None:
      vp.check(boxes == ["showerror"] and not p, "%s: %r", what, boxes)
    else:
      sr, x = region(m.audio, m.trim)
      got = played(p)
      vp.check(got is not None and got[0] == sr and not boxes, "%s: %r", what, boxes)
      vp.check_close(got[1], x, "%s: played" % what, rtol=1e-6, atol=1e-9)
  elif op[0] == "play resynth":
    w.press("Play Resynthesis")
    boxes, p = w.take()
    exp = expected_resynth(m)
    if exp is None:
      vp.check(boxes == ["showerror"] and not p, "%s: %r", what, boxes)
    else:
      got = played(p)
      vp.check(got is not None and not boxes, "%s: %r", what, boxes)
      vp.check(got[0] == RAW[m.audio][0], "%s: played at %r", what, got[0])
      vp.check_close(got[1], exp, "%s: played" % what, rtol=1e-6, atol=1e-9)
  elif op[0].startswith("wav") or op[0].startswith("json"):
    kind = op[0].split()[0]
    mode = op[0].split()[-1]
    p = {"cancel": "", "fail": os.path.join(w.d, "missing", "f")}.get(
        mode, os.path.join(w.d, "out." + kind))
    if os.path.exists(os.path.join(w.d, "out." + kind)):
      os.remove(os.path.join(w.d, "out." + kind))
    g.answers["asksaveasfilename"] = p
    g.dialogs.clear()
    w.press("Export " + kind.upper())
    boxes, _ = w.take()
    exp = expected_resynth(m) if kind == "wav" else m.model
    saved = os.path.exists(os.path.join(w.d, "out." + kind))
    if exp is None:
      vp.check(boxes == ["showerror"] and not saved, "%s: %r", what, boxes)
      vp.check(not g.dialogs, "%s: asks for a file", what)
    elif mode == "cancel":
      vp.check(boxes == [] and not saved, "%s: %r", what, boxes)
    elif mode == "fail":
      vp.check(boxes == ["showerror"] and not saved, "%s: %r", what, boxes)
    else:
      vp.check(boxes == ["showinfo"] and saved, "%s: %r", what, boxes)
      if kind == "wav":
        sr, x = wavfile.read(p)
        vp.check(sr == RAW[m.audio][0], "%s: rate %r", what, sr)
        vp.check_close(x, exp, "%s: exported audio" % what, rtol=1e-6, atol=1e-9)
      else:
        with open(p, encoding="utf-8") as f:
          j = json.load(f)
        e = jdict(reference(*m.model))
        vp.check(j.keys() == e.keys(), "%s: exported %r", what, j)
        for q in e:
          if isinstance(e[q], (int, float, list)):
            vp.check_close(j[q], e[q], "%s: exported %s" % (what, q), rtol=1e-6)
          else:
            vp.check(j[q] == e[q], "%s: exported %s", what, q)
  vp.check(not g.errors, "%s: failed with %r", what, g.errors)
  if m.audio is not None:
    vp.check((w.nb.audio_trim_start, w.nb.audio_trim_stop) == m.trim, "%s: selection", what)
  if m.model is not None:
    same_model(w.nb.sample_object, reference(*m.model), what)


# --- Every setting on every audio ----------------------------------------------------------
def gen_fit(tier):
  for a in range(len(AUDIO)):
    for v in range(5):
      for trim in ((0, 300), (5, 290), (100, 300), (0, 64), (0, 63), (0, 40), (7, 8)):
        yield [a, v, list(trim)]


def run_fit(case, st):
  a, v, trim = case
  with faketk.session() as g, World(g) as w:
    w.take()
    m = Model()
    for op in (["load", a], ["settings", v], ["trim", *trim], ["analyze"],
               ["play resynth"], ["wav"], ["json"]):
      step(w, m, op, "%r: %r" % (case, op))
  return [m.model is None, 0 if m.model is None else
          reference(*m.model).param_matrix_.shape[1]]


def gen_par(tier):
  """With worker processes"""
  for a in range(2 if tier == "quick" else 3):
    for trim in ((0, 300), (0, 40)):
      yield [a, 5, list(trim)]


# --- Events during the analysis -------------------------------------------------------------
EVENTS = [["analyze"], ["play"], ["settings", 1], ["play resynth"], ["json cancel"],
          ["analyze", "analyze"], ["trim", 0, 100], ["load", 1]]


def gen_reent(tier):
  for before in (False, True):
    for k in range(3):
      for e in range(len(EVENTS)):
        yield [before, k, e]


def run_reent(case, st):
  before, k, e = case
  ev = EVENTS[e]
  with faketk.session() as g, World(g) as w:
    m = Model()
    step(w, m, ["load", 0], "load")
    w.trim(0, 600)
    m.trim = (0, 600)
    if before:
      step(w, m, ["analyze"], "first analysis")
    w.take()
    n = [0]
    fits = []
    done = []

    def update():
      i = n[0]
      n[0] += 1
      if i != k:
        return
      done.append(1)
      w.g.answers["asksaveasfilename"] = ""
      if ev[0] == "analyze":
        for _ in ev:
          w.press("Analyze")
      elif ev[0] == "settings":
        w.variant(1)
      elif ev[0] == "trim":
        w.trim(*ev[1:])
      elif ev[0] == "load":
        w.load(1)
      else:
        w.press({"play": "Play Original", "play resynth": "Play Resynthesis",
                 "json cancel": "Export JSON"}[ev[0]])

    fit = SAMPLE.fit

    def count(self, *a, **kw):
      fits.append(1)
      return fit(self, *a, **kw)

    SAMPLE.fit = count
    try:
      faketk.on_update(w.tab, update)
      w.press("Analyze")
    finally:
      SAMPLE.fit = fit
      faketk.on_update(w.tab, lambda: None)
    vp.check(not g.errors, "%r: failed with %r", case, g.errors)
    vp.check(len(fits) == 1, "%r: %d analyses", case, len(fits))
    vp.check(done or k > 1, "%r: the window is frozen during the analysis", case)
    same_model(w.nb.sample_object, reference(0, (0, 600), 0), "%r" % case)
    boxes, _ = w.take()
    vp.check([b for b in boxes if b != "showerror"] == [] and
             (not boxes or ev[0] in ("play resynth", "json cancel") and not before),
             "%r: %r", case, boxes)
    # and the next analysis works
    m2 = Model()
    m2.audio, m2.trim, m2.var = 0, (0, 600), 0
    w.variant(0)
    m2.load(0, w.load(0))
    step(w, m2, ["analyze"], "%r, then another analysis" % case)
    step(w, m2, ["wav"], "%r, then an export" % case)
  return [before, k, bool(done)]


# --- The lock ------------------------------------------------------------------------------
def gen_lock(tier):
  for n in range(1, 6 if tier == "quick" else 8):
    for seq in itertools.product((0, 1), repeat=n):
      yield list(seq)


class Boom(Exception):
  pass


def run_lock(case, st):
  """Nested and consecutive attempts; 1 = the body fails"""
  if not hasattr(analysis, "_non_block_lock"):
    return None
  for nested in (False, True):
    lock = threading.Lock()

    def attempt(i):
      if i == len(case):
        return
      with analysis._non_block_lock(lock) as own:
        vp.check(bool(own) == (not nested or i == 0), "%r: attempt %d: %r", case, i, own)
        vp.check(lock.locked(), "%r: not locked", case)
        if nested:
          with contextlib.suppress(Boom):
            attempt(i + 1)
          vp.check(lock.locked(), "%r: released from inside", case)
        if case[i]:
          raise Boom()

    if nested:
      with contextlib.suppress(Boom):
        attempt(0)
    else:
      for i in range(len(case)):
        with contextlib.suppress(Boom):
          attempt(i)
        vp.check(not lock.locked(), "%r: still locked", case)
    vp.check(not lock.locked(), "%r: still locked", case)
  return sum(case)


# --- Progress bar --------------------------------------------------------------------------
POPS = [["start", 5, 0], ["start", 3, 2], ["update", None], ["update", 4], ["stop"]]


def gen_prog(tier):
  n = 4 if tier == "quick" else 6
  for k in range(n + 1):
    for seq in itertools.product(range(len(POPS)), repeat=k):
      yield list(seq)


class Bar(dict):

  def __init__(self):
    super().__init__(maximum=1, value=0)
    self.updates = 0

  def config(self, **kw):
    dict.update(self, kw)

  configure = config

  def update(self, *a, **kw):
    self.updates += 1


def run_prog(case, st):
  bar = Bar()
  a = gsample._GUIFitArgs(progressbar=bar)
  b = gsample._GUIFitArgs()
  for k, i in enumerate(case):
    op = POPS[i]
    u = bar.updates
    for x in (a, b):
      if op[0] == "start":
        x.progress_start(op[1], op[2])
      elif op[0] == "stop":
        x.progress_stop()
      else:
        x.progress_update(op[1]) if op[1] is not None else x.progress_update()
    if op[0] == "start":
      vp.check((bar["maximum"], bar["value"]) == (op[1], op[2]), "%r: %r", case, dict(bar))
    elif op[0] == "stop":
      vp.check(bar["value"] == bar["maximum"] > 0, "%r: %r", case, dict(bar))
    if op[0] in ("start", "stop"):
      vp.check(bar.updates > u, "%r: not shown", case)
      cur = {"start": op[-1], "stop": 1}[op[0]]
    elif k == 0:
      cur = op[1] or 1
    else:
      cur = op[1] if op[1] is not None else cur + 1
    if op[0] == "update" and bar.updates > u:
      # updates are shown at most every so often, but never late
      vp.check(bar["value"] == cur, "%r: shows %r instead of %r", case, bar["value"], cur)
  return len(case)


# --- Worker processes after audio was played ---------------------------------------------
_SERIAL = []


def gen_work(tier):
  hist = [[], ["play"], ["play", "close"], ["play", "play"]]
  delays = [None] + [[w, k] for w in range(2) for k in range(4)]
  for h in hist if tier != "quick" else hist[:3]:
    for d in delays:
      for jobs in (2,) if tier == "quick" else (1, 2, 3):
        yield [h, d, jobs]


def _worker(case, seconds=120):
  p = subprocess.Popen([sys.executable, "-W", "ignore", workers.__file__, json.dumps(case)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       start_new_session=True)
  try:
    out, err = p.communicate(timeout=seconds)
  except subprocess.TimeoutExpired:
    return None
  finally:
    try:
      os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
      pass
    p.wait()
  vp.check(p.returncode == 0, "%r: exit status %r: %s", case, p.returncode,
           err.decode()[-1500:])
  return json.loads(out.decode().splitlines()[-1])


def run_work(case, st):
  """The analysis ends, whatever the delay of a worker, with the same modes"""
  m = _worker(case)
  vp.check(m is not None, "%r: the analysis never ends", case)
  if not _SERIAL:
    _SERIAL.append(_worker([[], None, 0]))
  vp.check_close(m, _SERIAL[0], "%r: modes" % case, rtol=1e-9)
  st.traces += 1
  return [len(m[0]), case[0]]


vp.main(
    "C25",
    [("histories", gen_hist, run_hist, {"chunk": 8}), ("analyses", gen_fit, run_fit),
     ("parallel", gen_par, run_fit, {"serial": True}),
     ("workers", gen_work, run_work, {"chunk": 1}), ("events", gen_reent, run_reent, {"chunk": 2}), ("lock", gen_lock, run_lock),
     ("progress", gen_prog, run_prog, {"chunk": 128})],
    level="model_checking",
    rule="every sequence of user actions on the real tabs (load, trim, settings, analyze, "
    "play, export with success, failure and cancellation) in lock step with a reference "
    "state and the library itself; every action delivered at every refresh of the window "
    "during an analysis; real worker processes with one of them delayed at each of its "
    "requests for tasks, after audio was played with the real backend",
    bounds={
        "quick": "2 actions out of 14, 3 out of 9, after 0-2 others; 8 events at 3 refreshes",
        "thorough": "3 actions out of 14, 4 out of 9"
    },
    assumptions=["Tk is replaced with a recorder (see C22)",
                 "the reference of an analysis is the library (C01-C05)"])

"""C24: loading, trimming and playing audio in the GUI"""
import io
import itertools
import os
import shutil
import tempfile

import faketk
import numpy as np
import vp
from sample.utils import dsp
from sample.widgets import audioload, userfiles
from scipy.io import wavfile

DT = {"int16": np.int16, "int32": np.int32, "uint8": np.uint8, "float32": np.float32,
      "float64": np.float64}


# --- Audio files ------------------------------------------------------------------------
def shape(kind, n):
  t = np.arange(n)
  if kind == "silence":
    return np.zeros(n)
  if kind == "constant":
    return np.full(n, .5)
  if kind == "ramp":
    return (t % 200 - 100) / 128.
  x = np.zeros(n)  # strokes
  for k, a in ((n // 5, .5), (n // 2, .75)):
    x[k:] += a * np.exp(-t[:n - k] / (n / 8)) * np.sin(t[:n - k] * .3)
  return x


def encode(x, dt):
  if dt == "uint8":
    return np.clip(np.round(x * 128 + 128), 0, 255).astype(np.uint8)
  if dt.startswith("int"):
    return np.round(x * (2.**(8 * DT[dt]().itemsize - 1) - 1)).astype(DT[dt])
  return x.astype(DT[dt])


def decode(raw):
  if raw.dtype == np.uint8:
    return (raw.astype(float) - 128) / 128
  if raw.dtype.kind == "i":
    return raw / 2.**(8 * raw.dtype.itemsize - 1)
  return raw.astype(float)


def auto(x):
  """Longest stretch between two onsets, or up to the end"""
  try:
    ons = np.flatnonzero(dsp.onset_detection(x)).tolist()
  except ValueError:
    ons = []
  if not ons:
    return 0, len(x)
  best = None
  for a, b in zip(ons, ons[1:] + [len(x)]):
    if best is None or b - a > best[1] - best[0]:
      best = (a, b)
  return best


# --- Reference state ----------------------------------------------------------------------
class Model:

  def __init__(self):
    self.x = self.sr = self.start = self.stop = self.side = None
    self.pan = self.zoom = False
    self.lims = None

  @property
  def loaded(self):
    return self.x is not None

  def load(self, x, sr):
    self.x, self.sr = x, sr
    self.start, self.stop = auto(x)
    self.lims = None

  def set(self, i, start):
    if not self.loaded:
      return
    if start:
      self.start = min(max(0, i), self.stop - 1)
    else:
      self.stop = max(min(i, len(self.x)), self.start + 1)

  def index(self, t):
    v = t * self.sr
    if v != v:
      return 0
    if v in (np.inf, -np.inf):
      return 10**9 if v > 0 else -1
    return int(round(v))

  def typed(self, text, start):
    if not self.loaded:
      return
    try:
      t = float(text)
    except ValueError:
      t = 0.
    self.set(self.index(t), start)

  def press(self, t):
    if self.pan or self.zoom:
      self.side = None
    elif self.loaded and self.side is None and t is not None:
      i = t * self.sr
      self.side = "start" if abs(i - self.start) < abs(i - self.stop) else "stop"

  def release(self, t):
    if self.pan or self.zoom:
      self.side = None
    elif self.loaded and self.side is not None:
      if t is not None:
        self.set(self.index(t), self.side == "start")
      self.side = None


class World:

  def __init__(self, g, cache=None):
    self.g = g
    self.d = tempfile.mkdtemp(prefix="vp_c24_")
    ud = userfiles.UserDir(os.path.join(self.d, "u"))
    if cache is not None:
      ud.user_file("audio.cache").save_pickled(cache)
    self.root, self.nb = faketk.root(persistent_dir=ud,
                                     settings_file=ud.user_file("settings.json"),
                                     audio_cache_file=ud.user_file("audio.cache"))
    self.tab = audioload.AudioLoadTab(self.nb)
    self.ax = self.tab.plt.fig.axes[0]

  def __enter__(self):
    return self

  def __exit__(self, *a):
    shutil.rmtree(self.d)

  def file(self, raw, sr, name="a.wav"):
    p = os.path.join(self.d, name)
    if isinstance(raw, bytes):
      with open(p, "wb") as f:
        f.write(raw)
    else:
      wavfile.write(p, sr, raw)
    return p

  def load(self, path):
    self.g.answers["askopenfilename"] = path
    faketk.click(faketk.by_text(self.tab, "Load"))

  def compare(self, m, what, entries=False):
    g, t = self.g, self.tab
    vp.check(not g.errors, "%s: failed with %r", what, g.errors)
    got = (t.audio_trim_start, t.audio_trim_stop)
    vp.check(got == (m.start, m.stop), "%s: selected %r instead of %r", what, got,
             (m.start, m.stop))
    vp.check(bool(t.audio_loaded) == m.loaded, "%s: loaded", what)
    if not m.loaded:
      return
    vp.check(0 <= got[0] < got[1] <= len(m.x), "%s: selected %r of %d", what, got, len(m.x))
    vp.check(t.audio_sr == m.sr, "%s: rate %r", what, t.audio_sr)
    vp.check_close(t.audio_x, m.x, "%s: audio" % what, rtol=1e-6, atol=1e-9)
    lines = self.ax.lines
    vp.check(len(lines) == 2, "%s: %d lines", what, len(lines))
    vp.check_close(lines[0].get_xdata(), np.arange(len(m.x)) / m.sr, "%s: time" % what)
    vp.check_close(lines[0].get_ydata(), m.x, "%s: plot" % what, rtol=1e-6, atol=1e-9)
    vp.check_close(lines[1].get_xdata(), np.arange(m.start, m.stop) / m.sr,
                   "%s: time of the selection" % what)
    vp.check_close(lines[1].get_ydata(), m.x[m.start:m.stop], "%s: selection" % what,
                   rtol=1e-6, atol=1e-9)
    if entries:
      for v, i in ((t.trim_start_input_var, m.start), (t.trim_stop_input_var, m.stop)):
        vp.check(float(v.get()) == i / m.sr, "%s: shows %r for sample %d", what, v.get(), i)
    if m.lims is not None:
      vp.check_close(self.ax.get_xlim(), m.lims[0], "%s: view" % what)
      vp.check_close(self.ax.get_ylim(), m.lims[1], "%s: view" % what)


# --- Files of every format ----------------------------------------------------------------
def gen_load(tier):
  sizes = [1, 2, 50, 1023, 1024, 4000, 12000] if tier == "quick" else [
      1, 2, 3, 50, 511, 1023, 1024, 1025, 2000, 4000, 8000, 12000, 30000]
  for dt in DT:
    for ch in (0, 1, 2, 3):
      for kind in ("strokes", "silence", "constant", "ramp"):
        for n in sizes:
          yield [dt, ch, kind, n]


def run_load(case, st):
  dt, ch, kind, n = case
  x = shape(kind, n)
  if ch:
    x = np.stack([x * (1 - .25 * c) for c in range(ch)], axis=-1)
  raw = encode(x, dt)
  with faketk.session() as g, World(g) as w:
    m = Model()
    for sr in (1000, 44100):
      w.load(w.file(raw, sr, "%d.wav" % sr))
      y = decode(raw)
      m.load(y if not ch else y.mean(axis=-1), sr)
      w.compare(m, "%r" % case, entries=True)
      vp.check(not [b for b in g.boxes], "%r: %r", case, g.boxes)
      vp.check(w.tab.filedialog_file.endswith("%d.wav" % sr) and w.tab.filedialog_dir == w.d,
               "dialog directory")
  return [kind, m.start == 0, m.stop == n]


# --- Files that cannot be loaded -------------------------------------------------------------
def gen_bad(tier):
  for before in (False, True):
    for b in ("missing", "empty file", "text", "header only", "directory", "no samples",
              "truncated header"):
      yield [before, b]


def run_bad(case, st):
  before, bad = case
  with faketk.session() as g, World(g) as w:
    m = Model()
    if before:
      raw = encode(shape("strokes", 4000), "int16")
      w.load(w.file(raw, 1000, "good.wav"))
      m.load(decode(raw), 1000)
      w.tab.set_trim(100, start=True, update=True)
      m.set(100, True)
    g.boxes.clear()
    good = w.file(encode(shape("ramp", 20), "int16"), 1000, "g.wav")
    with open(good, "rb") as f:
      data = f.read()
    p = {"missing": lambda: os.path.join(w.d, "nope.wav"),
         "empty file": lambda: w.file(b"", 0, "b.wav"),
         "text": lambda: w.file(b"hello world, this is no audio", 0, "b.wav"),
         "header only": lambda: w.file(data[:12], 0, "b.wav"),
         "truncated header": lambda: w.file(data[:30], 0, "b.wav"),
         "directory": lambda: w.d,
         "no samples": lambda: w.file(np.zeros(0, np.int16), 300, "b.wav")}[bad]()
    w.load(p)
    vp.check([b[0] for b in g.boxes] == ["showerror"], "%r: %r", case, g.boxes)
    w.compare(m, "%r" % case)
    # a valid file can still be loaded
    raw = encode(shape("ramp", 50), "uint8")
    w.load(w.file(raw, 500, "good2.wav"))
    m.load(decode(raw), 500)
    w.compare(m, "%r, then a valid file" % case, entries=True)
    # dialog cancelled
    w.load("")
    w.compare(m, "cancelled", entries=True)
  return bad


# --- Histories of the user ---------------------------------------------------------------------
SR = 100
RAW = [encode(shape("ramp", 40), "int16"), encode(shape("silence", 7), "float64")]
TIMES = [0., .03, .29, .57, .2, .4, -1., 5.]
OPS = ([["load", 0], ["load", 1]] + [["press", t] for t in (0., .29, .4, None)] +
       [["release", t] for t in (.03, .29, -1., 5., None)] +
       [["start", t] for t in ("0.29", "9", "")] + [["stop", t] for t in ("0.07", "-1", "inf")] +
       [["pan"], ["view"]])
CORE = [i for i, o in enumerate(OPS) if o not in (["stop", "inf"], ["view"], ["start", ""])]


def gen_hist(tier):
  for seq in itertools.product(range(len(OPS)), repeat=3):
    yield list(seq)
  if tier != "quick":
    for seq in itertools.product(CORE, repeat=4):
      yield list(seq)
  if tier == "quick":
    # one more operation between pairs of a press and a release
    press = [i for i, o in enumerate(OPS) if o[0] == "press"]
    rel = [i for i, o in enumerate(OPS) if o[0] == "release"]
    for a, b, c in itertools.product(press, range(len(OPS)), rel):
      for d in press[:2]:
        yield [0, a, b, c, d, rel[0]]


def run_hist(case, st):
  with faketk.session() as g, World(g) as w:
    m = Model()
    if case[0] != 0:
      w.load(w.file(RAW[0], SR))
      m.load(decode(RAW[0]), SR)
    for k, i in enumerate(case):
      op = OPS[i]
      what = "%r" % [OPS[j] for j in case[:k + 1]]
      entries = False
      if op[0] == "load":
        w.load(w.file(RAW[op[1]], SR))
        m.load(decode(RAW[op[1]]), SR)
        entries = True
      elif op[0] == "press":
        faketk.mouse(w.tab.plt.canvas, "button_press_event", op[1], op[1] is not None)
        m.press(op[1])
      elif op[0] == "release":
        entries = m.side is not None and not m.pan and op[1] is not None
        faketk.mouse(w.tab.plt.canvas, "button_release_event", op[1], op[1] is not None)
        m.release(op[1])
      elif op[0] == "start":
        w.tab.trim_start_input_var.set(op[1])
        m.typed(op[1], True)
      elif op[0] == "stop":
        w.tab.trim_stop_input_var.set(op[1])
        m.typed(op[1], False)
      elif op[0] == "pan":
        m.pan = not m.pan
        b = w.tab.plt.toolbar._buttons["Pan"]
        b.tk.eval("set %s %d" % (faketk.conf(b, "variable"), m.pan))
      elif op[0] == "view":
        w.ax.set_xlim(.05, .11)
        w.ax.set_ylim(-.3, .2)
        m.lims = ((.05, .11), (-.3, .2)) if m.loaded else None
      w.compare(m, what, entries)
      st.transitions += 1
    st.states += len(case) + 1
    st.traces += 1
    # what is played is what is selected
    g.played.clear()
    faketk.click(faketk.by_text(w.tab, "Play"))
    vp.check(not g.errors, "play: %r", g.errors)
    calls = [p[0] for p in g.played]
    vp.check(calls[-2:] == ["load", "play"], "play: %r", calls)
    sr, x = wavfile.read(io.BytesIO(next(p[1] for p in g.played if p[0] == "load")))
    vp.check(sr == m.sr, "played at %r", sr)
    vp.check_close(x, m.x[m.start:m.stop], "played audio", rtol=1e-6, atol=1e-9)
    init = next(p[1] for p in g.played if p[0] == "init")
    vp.check(init.get("frequency") == m.sr, "device %r", init)
  return [m.start, m.stop]


# --- Every index ---------------------------------------------------------------------------
def gen_index(tier):
  rates = [7, 100, 999, 8000, 11025, 44100, 48000]
  if tier != "quick":
    rates += [1, 3, 22050, 96000, 192000, 44056]
  for sr in rates:
    for start in (True, False):
      for how in ("mouse", "typed", "samples", "seconds"):
        yield [sr, start, how]


def run_index(case, st):
  sr, start, how = case
  n = 300
  raw = encode(shape("silence", n), "int16")
  with faketk.session() as g, World(g) as w:
    w.load(w.file(raw, sr))
    t = w.tab
    span = range(-2, n + 3)
    for i in span:
      # from the whole file
      t.set_trim(0, start=True)
      t.set_trim(n, start=False)
      t.set_trim(0, start=True)
      vp.check((t.audio_trim_start, t.audio_trim_stop) == (0, n), "reset")
      if how == "samples":
        t.set_trim(i, start=start)
      elif how == "seconds":
        t.set_trim(i / sr, start=start, samples=False)
      elif how == "typed":
        (t.trim_start_input_var if start else t.trim_stop_input_var).set(str(i / sr))
      else:
        faketk.mouse(t.plt.canvas, "button_press_event", 0. if start else n / sr)
        faketk.mouse(t.plt.canvas, "button_release_event", i / sr)
      exp = (min(max(i, 0), n - 1), n) if start else (0, max(1, min(i, n)))
      got = (t.audio_trim_start, t.audio_trim_stop)
      vp.check(not g.errors, "%r", g.errors)
      vp.check(got == exp, "%r: sample %d: selected %r instead of %r", case, i, got, exp)
      if how == "mouse":
        for v, e in zip((t.trim_start_input_var, t.trim_stop_input_var), exp):
          vp.check(float(v.get()) == e / sr, "%r: shows %r", case, v.get())
      st.count("indices")
  return [start, how]


# --- Resumed sessions ------------------------------------------------------------------------
KEYS = ["audio_x", "audio_sr", "audio_trim_start", "audio_trim_stop"]


def gen_cache(tier):
  for kind, n in (("strokes", 4000), ("silence", 30)):
    for r in range(5):
      for ks in itertools.combinations(KEYS, r):
        for none in (False, True):
          yield [kind, n, list(ks), none]


def run_cache(case, st):
  kind, n, ks, none = case
  full = dict(audio_x=shape(kind, n), audio_sr=200, audio_trim_start=2, audio_trim_stop=21)
  cache = {k: full[k] for k in ks}
  if none:
    cache.update({k: None for k in KEYS if k not in cache})
  with faketk.session() as g, World(g, cache) as w:
    m = Model()
    if "audio_x" in ks:
      m.load(full["audio_x"], 200 if "audio_sr" in ks else 44100)
      if "audio_trim_start" in ks and "audio_trim_stop" in ks:
        m.start, m.stop = 2, 21
      w.compare(m, "%r" % case, entries=True)
    else:
      vp.check(not w.tab.audio_loaded and not g.errors, "%r", case)
      vp.check(w.tab.audio_x is None, "%r", case)
      faketk.click(faketk.by_text(w.tab, "Play"))
      vp.check(not g.played and not g.errors, "%r: played", case)
  return len(ks)


vp.main(
    "C24",
    [("formats", gen_load, run_load), ("invalid files", gen_bad, run_bad),
     ("histories", gen_hist, run_hist, {"chunk": 32}),
     ("indices", gen_index, run_index, {"chunk": 1}), ("resumed", gen_cache, run_cache)],
    level="model_checking",
    rule="every sequence of user actions on the real tab (loading, pressing and releasing "
    "the mouse inside and outside of the plot, typing, panning, zooming) in lock step with "
    "a reference state; every format, number of channels and kind of audio; every sample "
    "index at several rates; every partial cache",
    bounds={
        "quick": "3 actions out of 19 (6 around a drag), 5 formats x 4 channel layouts x 4 "
                 "kinds x 7 sizes, 305 indices x 7 rates",
        "thorough": "4 actions, 13 sizes, 13 rates"
    },
    assumptions=["Tk is replaced with a recorder (see C22)",
                 "the onsets are those of onset_detection (C13)"])

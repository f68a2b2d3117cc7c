"""C23: files of the user survive crashes and failed writes"""
import contextlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile

import faketk
import numpy as np
import vp
from crash import crash_states, disk, restore
from sample.widgets import audioload, main, settings, userfiles

# --- What is written ------------------------------------------------------------------
DATA = {
    "json": [{"a": 1}, {"gui_theme": "black", "x": list(range(40)), "s": "é" * 30}, {},
             [1, 2, {"b": None}], "text", {"k": 1.5, "n": None, "t": True}],
    "pickle": [{"audio_x": np.arange(5.), "audio_sr": 3}, {"audio_x": None},
               {"audio_x": np.linspace(0, 1, 3000), "audio_sr": 1}],
}  # yapf: disable
BAD = {"json": [{"a": 1, "b": {1, 2}}, {"a": object()}, object(), {(1, 2): 3}],
       "pickle": [{"a": lambda: 0}, {"a": 1, "f": sys.stdout}]}
WIDE = {"json": dict(indent=2), "pickle": {}}


class Files:

  def __init__(self, kind, sub="settings.file"):
    self.d = tempfile.mkdtemp(prefix="vp_c23_")
    self.kind = kind
    self.ud = userfiles.UserDir(os.path.join(self.d, "home", "u"))
    self.f = self.ud.user_file(sub)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    shutil.rmtree(self.d)

  def save(self, data):
    if self.kind == "json":
      self.f.save_json(data, **WIDE["json"])
    else:
      self.f.save_pickled(data)

  def load(self):
    return self.f.load_json() if self.kind == "json" else self.f.load_pickled()


def same(a, b):
  if isinstance(b, dict):
    return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
  return np.array_equal(a, b)


# --- Crash points ---------------------------------------------------------------------
def gen_crash(tier):
  for kind in DATA:
    n = len(DATA[kind])
    for old in [None, *range(n)]:
      for new in range(n):
        yield [kind, old, new]


def run_crash(case, st):
  kind, old, new = case
  with Files(kind) as f:
    if old is not None:
      f.save(DATA[kind][old])
    states = crash_states(lambda: f.save(DATA[kind][new]), f.d, st)
    vp.check(same(f.load(), DATA[kind][new]), "%r: saved %r", case, f.load())
  ends = []
  for k, s in enumerate(states):
    with Files(kind) as f:
      restore(s, f.d)
      st.transitions += 1
      st.states += 1
      if not f.f.exists():
        vp.check(old is None and k < len(states) - 1, "%r: crash %d: the file is lost",
                 case, k)
        ends.append("none")
      else:
        try:
          v = f.load()
        except Exception as e:
          raise vp.Violation("%r: a crash (state %d) leaves an unreadable file: %r" %
                             (case, k, e)) from e
        is_new, is_old = same(v, DATA[kind][new]), old is not None and same(
            v, DATA[kind][old])
        vp.check(is_new or is_old, "%r: after a crash (state %d) the file holds %r", case,
                 k, v)
        ends.append("new" if is_new else "old")
      # whatever is left behind does not disturb the next save
      f.save(DATA[kind][new])
      vp.check(same(f.load(), DATA[kind][new]), "%r: save after crash %d", case, k)
  st.traces += len(states)
  return sorted(set(ends))


# --- Full disk --------------------------------------------------------------------------
def limited(fn, size):
  """Run fn in a child process where no file can exceed the size, as on a full disk"""
  pid = os.fork()
  if pid == 0:
    code = 5
    try:
      signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
      resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
      fn()
      code = 0
    except OSError:
      code = 4
    except BaseException:  # pylint: disable=W0703
      code = 5
    os._exit(code)
  _, status = os.waitpid(pid, 0)
  return os.waitstatus_to_exitcode(status)


def gen_full(tier):
  for kind in DATA:
    for old in [None, 0, 1]:
      for new in range(len(DATA[kind])):
        if old == new:
          continue
        yield [kind, old, new]


def run_full(case, st):
  kind, old, new = case
  with Files(kind) as f:
    f.save(DATA[kind][new])
    size = os.path.getsize(f.f.path)
  step = max(1, size // 64)
  sizes = sorted({*range(0, size, step), *range(min(size, 4)), size - 1, size})
  ends = set()
  for s in sizes:
    with Files(kind) as f:
      if old is not None:
        f.save(DATA[kind][old])
      c = limited(lambda: f.save(DATA[kind][new]), s)
      st.transitions += 1
      st.states += 1
      vp.check(c == (0 if s >= size else 4), "%r: limit %d of %d: ended with %r", case, s,
               size, c)
      want = DATA[kind][new] if c == 0 else None if old is None else DATA[kind][old]
      if want is None:
        vp.check(not f.f.exists(), "%r: a failed write of %d bytes leaves a file", case, s)
      else:
        try:
          v = f.load()
        except Exception as e:
          raise vp.Violation("%r: a write failing after %d bytes leaves an unreadable "
                             "file: %r" % (case, s, e)) from e
        vp.check(same(v, want), "%r: after a failed write of %d bytes: %r", case, s, v)
      f.save(DATA[kind][new])
      vp.check(same(f.load(), DATA[kind][new]), "%r: save after a failure", case)
      left = sorted(os.listdir(f.ud.path))
      vp.check(left == [f.f.subpath], "%r: left %r", case, left)
      ends.add(c)
  st.traces += len(sizes)
  return sorted(ends)


# --- What cannot be saved ---------------------------------------------------------------
def gen_bad(tier):
  for kind in DATA:
    for old in [None, *range(len(DATA[kind]))]:
      for bad in range(len(BAD[kind])):
        yield [kind, old, bad]


def run_bad(case, st):
  kind, old, bad = case
  with Files(kind) as f:
    if old is not None:
      f.save(DATA[kind][old])
    vp.check_raises((TypeError, AttributeError, pickle.PicklingError),
                    lambda: f.save(BAD[kind][bad]), "%r" % case)
    if old is None:
      vp.check(not f.f.exists(), "%r: leaves a file", case)
    else:
      vp.check(same(f.load(), DATA[kind][old]), "%r: the file changed", case)
    left = os.listdir(f.ud.path) if os.path.isdir(f.ud.path) else []
    vp.check(left == ([] if old is None else [f.f.subpath]), "%r: left %r", case, left)
  return old is None


# --- Histories of operations on several files ---------------------------------------------
NAMES = ["a.json", "b.json", os.path.join("sub", "c.json")]
OPS = ([["save", i, j] for i in range(3) for j in (0, 1)] + [["delete", 0], ["bad", 0],
                                                             ["delete", 2]])


def gen_hist(tier):
  n = 4 if tier == "quick" else 5

  def rec(seq):
    yield seq
    if len(seq) < n:
      for k in range(len(OPS)):
        yield from rec(seq + [k])

  yield from rec([])


def run_hist(case, st):
  m = {}
  with Files("json") as f:
    fs = [f.ud.user_file(n) for n in NAMES]
    for k in case:
      op = OPS[k]
      x = fs[op[1]]
      if op[0] == "save":
        x.save_json(DATA["json"][op[2]])
        m[op[1]] = DATA["json"][op[2]]
      elif op[0] == "bad":
        vp.check_raises(TypeError, lambda: x.save_json(BAD["json"][0]), "bad data")
      elif op[1] in m:
        x.delete()
        del m[op[1]]
      else:
        vp.check_raises(FileNotFoundError, x.delete, "deleting nothing")
      for i, y in enumerate(fs):
        vp.check(y.is_valid() and y.exists() == (i in m), "%r: exists", case)
        vp.check(y.path == os.path.join(f.d, "home", "u", NAMES[i]), "path")
        if i in m:
          vp.check(y.load_json() == m[i], "%r: %r", case, NAMES[i])
      st.transitions += 1
    st.states += len(case) + 1
    st.traces += 1
  return sorted(m.items(), key=str)


# --- Validity of paths ---------------------------------------------------------------------
def gen_valid(tier):
  for d in (None, "", "x", "/a/b"):
    for s in (None, "", "f", "g/h"):
      yield [d, s]


def run_valid(case, st):
  d, s = case
  u = userfiles.UserDir(d)
  vp.check(bool(u.is_valid()) == bool(d), "directory %r", d)
  vp.check(bool(u.user_file(s).is_valid()) == bool(d and s), "%r", case)
  if d and s:
    vp.check(u.user_file(s).path == os.path.join(d, s), "path")
  home = os.environ.get("HOME")
  with tempfile.TemporaryDirectory(prefix="vp_c23_") as h:
    os.environ["HOME"] = h
    try:
      if d == "x":
        vp.check(userfiles.UserDir(d, in_home=True).path == os.path.join(h, d), "home")
    finally:
      os.environ["HOME"] = home or ""
  return bool(d and s)


# --- What occupies the path ---------------------------------------------------------------
OCCUPIED = ["nothing", "directory", "full directory", "dangling link", "link to a directory",
            "link to a file", "file", "empty file"]


def gen_occupied(tier):
  for kind in ("settings.json", "audio.cache", "sub/x.json"):
    for what in OCCUPIED:
      yield [kind, what]


def run_occupied(case, st):
  """Only a file holds something to load"""
  kind, what = case
  with Files("json", kind) as f:
    p = f.f.path
    os.makedirs(os.path.dirname(p))
    other = os.path.join(f.d, "other")
    if what.endswith("directory"):
      d = other if "link" in what else p
      os.makedirs(os.path.join(d, "x") if "full" in what else d)
    if what.endswith("file"):
      with open(other if "link" in what else p, "w", encoding="utf-8") as h:
        h.write("" if "empty" in what else '{"gui_theme": "black"}')
    if "link" in what:
      os.symlink(other, p)
    vp.check(bool(f.f.exists()) == what.endswith("file"), "%r: exists() gives %r", case,
             f.f.exists())
    if what != "empty file":
      vp.check(userfiles.UserTtkTheme(f.f).get() == (
          "black" if what.endswith("file") else userfiles.UserTtkTheme.default()),
               "%r: theme", case)
    if what.endswith("file"):
      f.f.delete()
      vp.check(not f.f.exists(), "%r: still there", case)
      vp.check(os.path.exists(other) == ("link" in what), "%r: the wrong file", case)
  return what


# --- The whole GUI ---------------------------------------------------------------------------
def world(tmp, theme=None):
  ud = userfiles.UserDir(os.path.join(tmp, "u"))
  if theme:
    ud.user_file("settings.json").save_json({"gui_theme": theme, "wsize": 64})
  return ud


def session_apply(ud):
  """A user changes the theme and the settings and accepts the reload"""
  with faketk.session() as g:
    g.answers["askyesno"] = True
    gui = main.SAMPLEGUI(persistent_dir=ud)
    nb = gui.notebook
    nb.audio_x, nb.audio_sr = np.linspace(-1, 1, 50), 100
    nb.audio_trim_start, nb.audio_trim_stop = 3, 40
    t = next(t for t in gui.tabs if isinstance(t, settings.SettingsTab))
    nb.quit = lambda: None
    t._settings["gui_theme"].var.set("black")
    t._settings["wsize"].var.set("128")
    return lambda keep=gui: faketk.click(faketk.by_text(t, "Apply"))


CONTENT = [None, "arc", "black"]


def gen_gui(tier):
  for old in CONTENT:
    for cache in (False, True):
      yield [old, cache]


def run_gui(case, st):
  old, cache = case
  with tempfile.TemporaryDirectory(prefix="vp_c23_") as tmp:
    ud = world(tmp, old)
    fn = session_apply(ud)
    with faketk.session() as g:
      g.answers["askyesno"] = True
      if cache:
        ud.user_file("audio.cache").save_pickled({"audio_x": None})
      states = crash_states(fn, tmp, st, full=False)
      vp.check(not g.errors, "%r", g.errors)
  changed = old != "black"
  out = set()
  for k, s in enumerate(states):
    with tempfile.TemporaryDirectory(prefix="vp_c23_") as tmp, faketk.session() as g:
      restore(s, tmp)
      ud = userfiles.UserDir(os.path.join(tmp, "u"))
      # the GUI starts again, with the settings of before or after
      try:
        gui = main.SAMPLEGUI(persistent_dir=ud)
      except Exception as e:
        raise vp.Violation("after a crash (state %d) while applying settings the GUI does "
                           "not start: %r" % (k, e)) from e
      t = next(t for t in gui.tabs if isinstance(t, settings.SettingsTab))
      a = next(t for t in gui.tabs if isinstance(t, audioload.AudioLoadTab))
      theme = gui.tk.eval("set ::vp_theme")
      w = len(t.sample_object_kwargs["sinusoidal__w"])
      vp.check((theme, w) in ((old or "radiance", 64 if old else 4096), ("black", 128)),
               "%r, state %d: %r", case, k, (theme, w))
      resumed = a.audio_x is not None
      if resumed:
        vp.check((a.audio_trim_start, a.audio_trim_stop, a.audio_sr) == (3, 40, 100) and
                 np.array_equal(a.audio_x, np.linspace(-1, 1, 50)), "state %d: audio", k)
        vp.check(changed and theme == "black", "%r: nothing to resume", case)
      vp.check(not ud.user_file("audio.cache").exists(), "%r: the cache is left", case)
      vp.check(not g.errors, "%r", g.errors)
      vp.check(k < len(states) - 1 or (resumed == changed and theme == "black"),
               "%r: reload", case)
      out.add((theme, w, resumed))
      gui.destroy()
    st.states += 1
    st.transitions += 1
  st.traces += len(states)
  return sorted(out)


vp.main(
    "C23",
    [("crash points", gen_crash, run_crash, {"chunk": 1}),
     ("full disk", gen_full, run_full, {"chunk": 1}), ("not serializable", gen_bad, run_bad),
     ("histories", gen_hist, run_hist, {"chunk": 64}), ("paths", gen_valid, run_valid),
     ("occupied paths", gen_occupied, run_occupied),
     ("settings", gen_gui, run_gui, {"chunk": 1})],
    level="fault_enumeration",
    rule="every content of the directory that a crash during a save can leave: observed "
    "at each traced event of any Python code, with partial writes; every size at which writes start to fail; every object "
    "that cannot be serialized at any depth; every history of saves, failures and deletions",
    bounds={
        "quick": "every pair of old and new content, histories of 4 operations on 3 files",
        "thorough": "histories of 5 operations"
    },
    assumptions=["what was handed to the kernel before the process died is on disk "
                 "(a crash of the process, not of the machine)"])

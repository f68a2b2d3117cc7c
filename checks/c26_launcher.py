"""C26: life cycle of the application: launch, reload, resume, close, crash"""
import contextlib
import itertools
import json
import logging
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import tkinter

import faketk
import numpy as np
import vp
from scipy.io import wavfile

with vp.quiet_stdout():
  from sample import gui as launcher
  from sample.widgets import audioload, main, settings

LIMIT = 3  # launches more than expected before giving up
RAW = [(1000, np.round(20000 * np.exp(-np.arange(400) / 90) *
                       np.sin(np.arange(400))).astype(np.int16)),
       (2000, np.round(9000 * np.sin(np.arange(250) / 3)).astype(np.int16))]

# what a user does before the end of a session
ACTIONS = [["load0"], ["load1"], ["trim 7 90"], ["trim 0 60"], ["wsize"], ["theme no"], ["error"]]
# how a session ends
ENDS = ["close", "reload", "crash", "exit", "killed", "start"]
# "crash": an exception out of the main loop, "start": no display at the start


# --- The child ---------------------------------------------------------------------------
class Script:
  """What happens in one process of the GUI"""

  def __init__(self, d, k, actions, end):
    self.d, self.k, self.actions, self.end = d, k, actions, end

  def note(self, **kw):
    with open(os.path.join(self.d, "log"), "a", encoding="utf-8") as f:
      f.write(json.dumps(dict(kw, k=self.k)) + "\n")

  def run(self, real, args, kwargs):
    kill = os.kill
    self.note(start=True, args=[args.log_level, args.splash_time, args.dir],
              pid=os.getpid())
    with faketk.session() as g, contextlib.ExitStack() as es:
      self.g = g
      g.answers["askyesno"] = False
      self.quit = False
      self.guis = []
      self.after = []
      init, after = main.SAMPLEGUI.__init__, tkinter.Misc.after
      p = faketk.mock.patch.object

      def gui_init(this, *a, **kw):
        init(this, *a, **kw)
        self.guis.append(this)

      def after_(this, ms, func=None, *a):
        self.after.append(ms)
        return after(this, 0, func, *a)

      def quit_(this):
        self.quit = True

      def loop(this, n=0):
        import _tkinter
        if self.end == "killed" and not self.actions:
          kill(os.getpid(), signal.SIGKILL)
        for _ in range(10000):
          if self.guis or g.errors:
            break
          this.tk.dooneevent(_tkinter.DONT_WAIT)
        self.note(state=self.state(), errors=[repr(e) for e in g.errors],
                  after=self.after, n=len(self.guis))
        for a in self.actions:
          self.act(a)
        self.note(final=self.state(), errors=[repr(e) for e in g.errors])
        if self.end == "killed":
          kill(os.getpid(), signal.SIGKILL)
        if self.end == "crash":
          raise RuntimeError("crash")
        if self.end == "exit":
          sys.exit(3)
        if self.end == "close":
          self.close()
          self.note(kills=[[i == os.getpid(), s] for i, s in g.killed],
                    closed=[q[0] for q in g.played])
          kill(os.getpid(), signal.SIGKILL)
        self.reload()
        vp.check(self.quit, "no reload")

      es.enter_context(p(main.SAMPLEGUI, "__init__", gui_init))
      es.enter_context(p(tkinter.Misc, "after", after_))
      es.enter_context(p(tkinter.Misc, "mainloop", loop))
      es.enter_context(p(tkinter.Misc, "quit", quit_))
      if self.end == "start":

        def no_display(*a, **kw):
          raise tkinter.TclError("no display name and no $DISPLAY environment variable")

        es.enter_context(p(main, "main", no_display))
      real(args, **kwargs)

  @property
  def gui(self):
    return self.guis[-1]

  def tab(self, cls):
    return next(t for t in self.gui.tabs if isinstance(t, cls))

  def state(self):
    if not self.guis:
      return None
    s, a = self.tab(settings.SettingsTab), self.tab(audioload.AudioLoadTab)
    au = None
    if a.audio_x is not None:
      au = [int(a.audio_sr), int(a.audio_x.size), float(np.abs(a.audio_x).sum()),
            int(a.audio_trim_start), int(a.audio_trim_stop)]
    return {"theme": self.gui.tk.eval("set ::vp_theme"), "audio": au,
            "wsize": len(s.sample_object_kwargs["sinusoidal__w"]),
            "shown": s._settings["wsize"].var.get(),
            "cache": os.path.exists(os.path.join(self.d, "u", "audio.cache"))}

  def click(self, tab, text):
    faketk.click(faketk.by_text(tab, text))

  def theme(self, answer):
    s = self.tab(settings.SettingsTab)
    self.g.answers["askyesno"] = answer
    cur = s._settings["gui_theme"].get()
    s._settings["gui_theme"].var.set("black" if cur != "black" else "arc")
    self.click(s, "Apply")

  def act(self, a):
    if a.startswith("load"):
      self.g.answers["askopenfilename"] = os.path.join(self.d, a + ".wav")
      self.click(self.tab(audioload.AudioLoadTab), "Load")
    elif a.startswith("trim"):
      t = self.tab(audioload.AudioLoadTab)
      i, j = map(int, a.split()[1:])
      t.set_trim(i, True)
      t.set_trim(j, False)
    elif a == "wsize":
      s = self.tab(settings.SettingsTab)
      v = s._settings["wsize"].var
      v.set("128" if v.get() != "128" else "256")
      self.click(s, "Apply")
    elif a == "theme no":
      self.theme(False)
    elif a == "error":
      # an error in a callback does not end the session
      def boom():
        raise ValueError("boom")

      self.gui.after(0, boom)
      import _tkinter
      while self.gui.tk.dooneevent(_tkinter.DONT_WAIT):
        pass

  def reload(self):
    self.theme(True)

  def close(self):
    """The window manager asks to close the window"""
    tk = self.gui.tk
    cmd = None
    for q in tk.splitlist(tk.eval("set ::vp_log")):
      q = tk.splitlist(q)
      if q[:2] == ("wm", "protocol") and q[3] == "WM_DELETE_WINDOW":
        cmd = q[4]
    vp.check(cmd, "nothing happens when the window is closed")
    tk.eval(cmd)


class Surplus(Exception):
  """The launcher does not stop"""


# --- The launcher ---------------------------------------------------------------------------
def application(d, sessions):
  """Run the launcher with one script for every expected process"""
  multiprocessing.current_process()._config["daemon"] = False
  real = launcher.launch
  log = os.path.join(d, "log")
  if os.path.exists(log):
    os.remove(log)
  count = multiprocessing.get_context("fork").Value("i", 0)
  parent = os.getpid()

  def child(args, *a, **kwargs):
    if os.getpid() == parent:
      raise vp.Violation("the GUI runs in the process of the launcher")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    with count.get_lock():
      k = count.value
      count.value += 1
    if k >= len(sessions):
      with open(log, "a", encoding="utf-8") as f:
        f.write(json.dumps({"k": k, "surplus": True}) + "\n")
      if k >= len(sessions) + LIMIT:
        os.kill(os.getppid(), signal.SIGUSR1)
        signal.pause()
      os._exit(1)
    Script(d, k, *sessions[k]).run(real, args, dict(zip(["reload_queue"], a), **kwargs))

  def stop(*a):
    raise Surplus()

  before = signal.signal(signal.SIGUSR1, stop)
  launcher.launch = child
  rc = None
  try:
    with vp.quiet_stdout():
      rc = launcher.run("--dir", os.path.join(d, "u"), "--splash-time", "17", "-l",
                        "critical")
  except Surplus:
    pass
  finally:
    launcher.launch = real
    signal.signal(signal.SIGUSR1, before)
    for c in multiprocessing.active_children():
      c.kill()
      c.join()
  with open(log, encoding="utf-8") as f:
    return rc, [json.loads(line) for line in f]


# --- Model ---------------------------------------------------------------------------------
class Model:

  def __init__(self):
    self.theme, self.wsize = "radiance", 4096
    self.audio = None
    self.cache = None  # (audio,) to be resumed

  def begin(self):
    """State after the start of a session"""
    self.audio = None
    if self.cache is not None:
      self.audio = self.cache[0]
      self.cache = None
    # the theme is applied at the start only
    self.shown = self.theme
    return self.state()

  def state(self):
    return {"theme": self.shown, "wsize": self.wsize, "audio": self.audio}

  def switch(self):
    self.theme = "black" if self.theme != "black" else "arc"

  def act(self, a, seen):
    if a.startswith("load"):
      i = int(a[-1])
      x = RAW[i][1] / 32768
      self.audio = [RAW[i][0], x.size, float(np.abs(x).sum()), *seen["audio"][3:]]
    elif a.startswith("trim") and self.audio is not None:
      self.audio = self.audio[:3] + [int(v) for v in a.split()[1:]]
    elif a == "wsize":
      self.wsize = 128 if self.wsize != 128 else 256
    elif a == "theme no":
      self.switch()

  def reload(self):
    self.switch()
    self.cache = (self.audio,)


def same(a, b):
  if a is None or b is None:
    return a is b
  return a[:2] == b[:2] and a[3:] == b[3:] and abs(a[2] - b[2]) < 1e-9 * (1 + a[2])


def compare(seen, exp, what):
  vp.check(seen is not None, "%s: there is no GUI", what)
  vp.check(seen["theme"] == exp["theme"], "%s: theme %r instead of %r", what,
           seen["theme"], exp["theme"])
  vp.check(seen["wsize"] == exp["wsize"] and float(seen["shown"]) == exp["wsize"],
           "%s: window size %r, shown %r, instead of %r", what, seen["wsize"],
           seen["shown"], exp["wsize"])
  vp.check(same(seen["audio"], exp["audio"]), "%s: audio %r instead of %r", what,
           seen["audio"], exp["audio"])


def run_app(d, model, sessions, st, what):
  """One run of the launcher; sessions are given until one does not ask a reload"""
  rc, log = application(d, sessions)
  n = [e["k"] for e in log if e.get("start")]
  vp.check(not any(e.get("surplus") for e in log),
           "%s: the GUI was started again although nobody asked", what)
  vp.check(n == list(range(len(sessions))), "%s: the GUI was started %d times", what, len(n))
  vp.check(not rc or sessions[-1][1] != "close", "%s: exit status %r", what, rc)
  for k, (actions, end) in enumerate(sessions):
    w = "%s, launch %d" % (what, k)
    ev = [e for e in log if e["k"] == k]
    st.states += len(ev)
    st.transitions += 1 + len(actions)
    vp.check(ev[0]["args"] == ["CRITICAL", 17, os.path.join(d, "u")], "%s: arguments %r", w,
             ev[0]["args"])
    if end == "start" or end == "killed" and not actions:
      continue
    s = next((e for e in ev if "state" in e), None)
    vp.check(s is not None, "%s: the main loop does not start", w)
    vp.check(s["errors"] == [] and s["n"] == 1, "%s: %d GUIs, errors %r", w, s["n"],
             s["errors"])
    vp.check(s["after"][:1] == [17], "%s: splash time %r", w, s["after"])
    compare(s["state"], model.begin(), w)
    vp.check(not s["state"]["cache"], "%s: the cache is left", w)
    f = next((e for e in ev if "final" in e), None)
    vp.check(f is not None, "%s: the actions fail", w)
    vp.check(len(f["errors"]) == actions.count("error"), "%s: errors %r", w, f["errors"])
    for a in actions:
      model.act(a, f["final"])
    compare(f["final"], model.state(), w + ", at the end")
    if end == "reload":
      model.reload()
    if end == "close":
      c = next((e for e in ev if "kills" in e), None)
      vp.check(c is not None and c["kills"] == [[True, 9]], "%s: closing: %r", w, c)
      vp.check("quit" in c["closed"], "%s: the audio device is left open", w)


@contextlib.contextmanager
def directory():
  d = tempfile.mkdtemp(prefix="vp_c26_")
  try:
    for i, r in enumerate(RAW):
      wavfile.write(os.path.join(d, "load%d.wav" % i), *r)
    yield d
  finally:
    shutil.rmtree(d)


# --- Scenarios ----------------------------------------------------------------------------
def histories(acts, ends, depth):
  """Runs of the launcher: reloads followed by another end"""
  last = [[a, e] for a in acts for e in ends if e != "reload"]
  for n in range(depth):
    for pre in itertools.product(acts, repeat=n):
      for e in last:
        yield [[a, "reload"] for a in pre] + [e]


def gen_ends(tier):
  """Every way to end, after any number of reloads, then a second run"""
  for h in histories([[]], ENDS, 3 if tier == "quick" else 6):
    yield [h, [[[], "close"]]]


def gen_hist(tier):
  acts = [["load0"], ["load1", "trim 7 90"], ["load0", "trim 0 60"], ["wsize"], ["theme no"]] if tier == "quick" else [
      [], *ACTIONS, ["load1", "trim 7 90"], ["load0", "trim 0 60"], ["theme no", "wsize"]]
  ends = ["close", "killed", "start"] if tier == "quick" else ENDS
  for h in histories(acts, ends, 3 if tier == "quick" else 3):
    yield [h, [[["error"], "close"]]]
  for a in itertools.product([x[0] for x in ACTIONS], repeat=2):
    yield [[[list(a), "reload"], [[], "close"]], [[[], "close"]]]
    yield [[[list(a), "crash"]], [[[], "close"]]]


def run_hist(case, st):
  with directory() as d:
    m = Model()
    for k, sessions in enumerate(case):
      run_app(d, m, sessions, st, "%r, run %d" % (case, k))
    st.traces += 1
    return [len(s) for s in case] + [case[0][-1][1]]


# --- The flag given back by a window ------------------------------------------------------
def gen_flag(tier):
  for cls in ("SAMPLEGUI", "SAMPLESplashScreen", "SAMPLERoot"):
    for q in (False, True):
      for reload in (False, True):
        yield [cls, q, reload]


def run_flag(case, st):
  cls, q, reload = case
  with directory() as d, faketk.session() as g:
    queue = multiprocessing.get_context().SimpleQueue() if q else None
    from sample.widgets import userfiles
    kw = {"persistent_dir": userfiles.UserDir(os.path.join(d, "u"))} if cls == "SAMPLEGUI" \
      else {}
    w = getattr(main, cls)(reload_queue=queue, **kw)
    w.should_reload = reload
    w.on_closing()
    vp.check(g.killed == [(os.getpid(), 9)], "%r: killed %r", case, g.killed)
    if q:
      vp.check(not queue.empty() and queue.get() is reload and queue.empty(),
               "%r: not told", case)
  return case


# --- Options of the command line ------------------------------------------------------------
OPT_DIR = [None, "u", os.path.join("a", "b"), ".", "../c26 x", "ABS"]
OPT_TIME = [None, 0, 17, 12345]
OPT_LEVEL = [None, "debug", "INFO", "Warning", "error", "CRITICAL"]


def gen_opt(tier):
  for o in itertools.product(range(len(OPT_DIR)), range(len(OPT_TIME)),
                             range(len(OPT_LEVEL))):
    if tier != "quick" or sum(o) % 2 or 0 in o:
      for style in range(3):
        yield [list(o), style]


def run_opt(case, st):
  """Options reach the GUI, in whatever order and form they are given, together
  with those of others"""
  (i, j, k), style = case
  home, cwd = os.environ.get("HOME"), os.getcwd()
  multiprocessing.current_process()._config["daemon"] = False
  with directory() as d:
    path, ms, level = OPT_DIR[i], OPT_TIME[j], OPT_LEVEL[k]
    if path == "ABS":
      path = os.path.join(d, "abs")
    opts = [(n, str(v)) for n, v in ((("--log-level", "-l")[style == 1], level),
                                     ("--dir", path), ("--splash-time", ms))
            if v is not None]
    if style == 1:
      opts = opts[::-1]
    argv = [f"{n}={v}" for n, v in opts] if style == 2 else sum(map(list, opts), [])
    argv += ["-psn_0_1234"] * (style == 2)
    out = os.path.join(d, "out")
    os.makedirs(os.path.join(d, "home"))
    os.makedirs(os.path.join(d, "work"))

    def fake(*args, gui_kwargs, splash_time=None, **kwargs):
      queue = gui_kwargs.get("reload_queue")

      class Root:
        def mainloop(self, *a):
          with open(out, "a", encoding="utf-8") as f:
            f.write(json.dumps([gui_kwargs["persistent_dir"].path, splash_time,
                                main.logging.getEffectiveLevel()]) + "\n")
          queue.put(False)

      return Root()

    try:
      os.environ["HOME"] = os.path.join(d, "home")
      os.chdir(os.path.join(d, "work"))
      with faketk.mock.patch.object(main, "main", fake), vp.quiet_stdout():
        err = os.dup(2)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        try:
          rc = launcher.run(*argv)
        finally:
          os.dup2(err, 2)
          os.close(err)
          os.close(null)
      with open(out, encoding="utf-8") as f:
        got = [json.loads(r) for r in f]
      vp.check(rc == 0 and len(got) == 1, "%r: %d windows, %r", argv, len(got), rc)
      want = os.path.abspath(path) if path is not None else \
        os.path.join(d, "home", ".lim-sample")
      vp.check(os.path.abspath(got[0][0]) == want, "%r: files in %r", argv,
               got[0][0])
      vp.check(got[0][1] == (3000 if ms is None else ms), "%r: splash time %r",
               argv, got[0][1])
      vp.check(got[0][2] == getattr(logging, (level or "info").upper()),
               "%r: level %r", argv, got[0][2])
    finally:
      os.chdir(cwd)
      if home is None:
        os.environ.pop("HOME")
      else:
        os.environ["HOME"] = home
  st.count("starts")
  return repr(case)


vp.main(
    "C26",
    [("ends", gen_ends, run_hist, {"chunk": 1}), ("histories", gen_hist, run_hist,
                                                  {"chunk": 4}),
     ("flag", gen_flag, run_flag), ("options", gen_opt, run_opt, {"chunk": 8})],
    level="model_checking",
    rule="every history of sessions: actions, then a reload, the closing of the window, a "
    "crash, an exit, a kill or a failed start, then another run of the launcher; the real "
    "launcher with real processes and the real widgets, in lock step with a reference state",
    bounds={
        "quick": "up to 2 reloads before the last session, 4 kinds of actions, 6 ends",
        "thorough": "up to 5 reloads, 9 kinds of actions, 6 ends"
    },
    assumptions=["Tk is replaced with a recorder (see C22); the main loop processes the "
                 "events of Tcl, then the script of the session",
                 "processes are forked (the default on Linux)"])

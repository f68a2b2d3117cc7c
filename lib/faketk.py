"""Drive the real tkinter widgets of the GUI without a display

The Python side of :mod:`tkinter` is left as it is and runs on a real Tcl
interpreter (variables, traces, ``after`` timers and the event loop are those of
Tcl).  Only Tk itself, which would need a display, is replaced: widget commands
are accepted and recorded by a Tcl ``unknown`` procedure, ``winfo`` answers from
the names of the widgets, ``bind`` stores the bindings so that :func:`click` can
fire them.  The matplotlib canvas is an Agg one, dialogs and the audio device are
recorders."""
import contextlib
import logging
import multiprocessing
import tkinter
import types
from tkinter import filedialog, messagebox, ttk
from unittest import mock

import matplotlib
import ttkthemes
from matplotlib import artist, axis, backend_bases
from matplotlib.backends import _backend_tk, backend_agg, backend_tkagg

PRELUDE = r"""
set ::vp_root .
proc winfo {sub args} {
  set w [lindex $args 0]
  switch -- $sub {
    parent {
      set i [string last . $w]
      if {$i < 0} {return ""}
      if {$i == 0} {if {$w eq "."} {return ""}; return .}
      return [string range $w 0 [expr {$i - 1}]]
    }
    exists - viewable - ismapped {return 1}
    children {return ""}
    toplevel {return .}
    class {return Frame}
    rgb {return "0 0 0"}
    fpixels {return 72.0}
    default {return 0}
  }
}
proc bind {w args} {
  if {[llength $args] >= 2} {
    set s [lindex $args 1]
    if {[string index $s 0] eq "+"} {
      append ::vp_bind($w,[lindex $args 0]) "\n" [string range $s 1 end]
    } else {
      set ::vp_bind($w,[lindex $args 0]) $s
    }
  }
  return ""
}
proc ttk::style {args} {
  if {[lindex $args 0] eq "lookup"} {
    set k "[lindex $args 1],[lindex $args 2]"
    if {[info exists ::vp_style($k)]} {return $::vp_style($k)}
  }
  return ""
}
rename update vp_update
proc update {args} {
  if {[llength $args] == 0 && [info commands vp_on_update] ne ""} {vp_on_update}
  vp_update
}
proc unknown {cmd args} {
  set i [lsearch -exact $args -text]
  if {$i >= 0} {
    if {[string match .* $cmd]} {set w $cmd} else {set w [lindex $args 0]}
    set ::vp_text($w) [lindex $args [expr {$i + 1}]]
  }
  if {[lindex $args 0] eq "configure"} {
    foreach {k v} [lrange $args 1 end] {set ::vp_conf($cmd,$k) $v}
  } elseif {![string match .* $cmd] && [string match .* [lindex $args 0]]} {
    foreach {k v} [lrange $args 1 end] {set ::vp_conf([lindex $args 0],$k) $v}
  }
  if {[lindex $args 0] eq "cget"} {
    set k "$cmd,[lindex $args 1]"
    if {[info exists ::vp_conf($k)]} {return $::vp_conf($k)}
  }
  if {[lindex $args 0] eq "create"} {return 1}
  if {$cmd eq "wm" || [string match .* $cmd] || $cmd in {focus raise lift destroy}} {
    lappend ::vp_log [list $cmd {*}$args]
  }
  return ""
}
set ::vp_log {}
"""

_tk_init = tkinter.Tk.__init__


def _init(self, screenName=None, baseName=None, className="Tk", useTk=False,
          sync=False, use=None):
  _tk_init(self, screenName, baseName, className, False, sync, use)
  self.tk.eval("namespace eval ttk {}")
  self.tk.eval(PRELUDE)


class Canvas(backend_agg.FigureCanvasAgg):
  """Canvas that does not render"""

  def __init__(self, figure=None, master=None):
    super().__init__(figure)
    # nothing is picked: looking for the artist under the mouse is slow
    figure.canvas.mpl_disconnect(getattr(figure, "_button_pick_id", -1))
    figure.canvas.mpl_disconnect(getattr(figure, "_scroll_pick_id", -1))
    self._vp_widget = ttk.Frame(master)
    self.draws = 0

  def get_tk_widget(self):
    return self._vp_widget

  def draw(self, *args, **kwargs):
    self.draws += 1

  draw_idle = draw


class Toolbar(ttk.Frame):

  def __init__(self, canvas, window=None, *, pack_toolbar=True):
    super().__init__(window)
    self._buttons = {k: tkinter.Checkbutton(self) for k in ("Pan", "Zoom")}
    self.updates = 0

  def update(self):
    self.updates += 1


class Gui:
  """Recorder of what the GUI asks from its surroundings"""

  def __init__(self):
    self.boxes = []  # (kind, title, message)
    self.answers = {}  # replies for messagebox/filedialog functions
    self.dialogs = []
    self.played = []
    self.killed = []
    self.errors = []  # exceptions that escaped from callbacks

  def box(self, kind):

    def f(title=None, message=None, **kwargs):
      self.boxes.append((kind, title, message))
      a = self.answers.get(kind, "ok" if kind.startswith("show") else True)
      return a(title, message) if callable(a) else a

    return f

  def dialog(self, kind):

    def f(**kwargs):
      self.dialogs.append((kind, kwargs))
      a = self.answers.get(kind, "")
      return a(**kwargs) if callable(a) else a

    return f


def _tooltip(*args, **kwargs):
  return None


@contextlib.contextmanager
def session(gui=None):
  """Context in which widgets can be created; yields the recorder"""
  gui = gui or Gui()
  from sample.widgets import audio, images, main  # pylint: disable=C0415
  with contextlib.ExitStack() as es:
    logging.disable(logging.CRITICAL)
    es.callback(logging.disable, logging.NOTSET)

    def p(o, k, v):
      es.enter_context(mock.patch.object(o, k, v))

    p(tkinter.Tk, "__init__", _init)
    p(ttkthemes.ThemedTk, "_load_themes", lambda self: None)
    p(ttkthemes.ThemedTk, "get_themes", lambda self: list(ttkthemes.THEMES))

    def set_theme(self, theme_name, *a, **kw):
      self.tk.eval("set ::vp_theme {%s}" % theme_name)

    p(ttkthemes.ThemedTk, "set_theme", set_theme)

    def report(self, exc, val, tb):
      gui.errors.append(val)

    p(tkinter.Tk, "report_callback_exception", report)


    p(backend_tkagg, "FigureCanvasTkAgg", Canvas)
    p(backend_tkagg, "NavigationToolbar2Tk", Toolbar)
    p(_backend_tk.ToolTip, "createToolTip", staticmethod(_tooltip))
    # nothing is drawn: do not prepare the ticks
    p(axis.Axis, "set_clip_path", artist.Artist.set_clip_path)
    p(axis.Axis, "set_tick_params", lambda self, *a, **kw: None)
    p(axis.Axis, "grid", lambda self, *a, **kw: None)
    for k in ("showinfo", "showwarning", "showerror", "askyesno", "askokcancel",
              "askquestion", "askretrycancel", "askyesnocancel"):
      p(messagebox, k, gui.box(k))
    for k in ("askopenfilename", "asksaveasfilename", "askopenfile", "asksaveasfile",
              "askdirectory"):
      p(filedialog, k, gui.dialog(k))
    for k in ("LogoIcon", "LogoImage"):
      p(images, k, lambda *a, **kw: "vpimage")

    class Music:

      @staticmethod
      def load(buf):
        gui.played.append(["load", bytes(buf.getbuffer())])

      @staticmethod
      def play(*a, **kw):
        gui.played.append(["play"])

      @staticmethod
      def unload():
        gui.played.append(["unload"])

    fake_mixer = types.SimpleNamespace(
        music=Music, init=lambda **kw: gui.played.append(["init", kw]),
        quit=lambda: gui.played.append(["quit"]))
    fake_pygame = types.SimpleNamespace(init=lambda: None, quit=lambda: None,
                                        error=audio.pygame.error, mixer=fake_mixer)
    p(audio, "mixer", fake_mixer)
    p(audio, "pygame", fake_pygame)
    real_kill = main.os.kill

    def kill(pid, sig):
      # the children of a process pool are really ended
      if any(c.pid == pid for c in multiprocessing.process._children):  # pylint: disable=W0212
        return real_kill(pid, sig)
      gui.killed.append((pid, sig))

    p(main.os, "kill", kill)
    yield gui


def root(**attrs):
  """A root with a notebook, as in the real GUI, without the tabs"""
  r = ttkthemes.ThemedTk()
  r.should_reload = False
  nb = ttk.Notebook(r)
  for k, v in attrs.items():
    setattr(nb, k, v)
  return r, nb


def walk(w):
  yield w
  for c in list(w.children.values()):
    yield from walk(c)


def by_text(w, text):
  """The button (or label) with the given text"""
  for c in walk(w):
    t = c.tk.eval("if {[info exists ::vp_text(%s)]} {set ::vp_text(%s)}" % (c, c))
    if t == text:
      return c
  raise KeyError(text)


def conf(w, key):
  """Last value given to an option"""
  return w.tk.eval("if {[info exists ::vp_conf(%s,-%s)]} {set ::vp_conf(%s,-%s)}" %
                   (w, key, w, key))


def click(w, seq="<Button-1>"):
  """Fire a binding"""
  s = w.tk.eval("if {[info exists ::vp_bind(%s,%s)]} {set ::vp_bind(%s,%s)}" %
                (w, seq, w, seq))
  if not s:
    raise KeyError("%s has no binding for %s" % (w, seq))
  out = []
  i = 0
  while i < len(s):
    if s[i] == "%" and i + 1 < len(s):
      c = s[i + 1]
      out.append(str(w) if c == "W" else "0")
      i += 2
    else:
      out.append(s[i])
      i += 1
  # a break outside of a loop is an error: events are dispatched in a loop in Tk
  w.tk.eval("foreach vp_i 1 {%s}" % "".join(out))


def on_update(w, fn):
  """Call fn whenever the event queue is flushed"""
  w.tk.createcommand("vp_on_update", fn)


def mouse(canvas, name, xdata, inaxes=True, button=1):
  """Deliver a matplotlib mouse event to the callbacks"""
  fig = canvas.figure
  ax = fig.axes[0]
  ev = backend_bases.MouseEvent(name, canvas, 0, 0, button)
  ev.inaxes = ax if inaxes else None
  ev.xdata = xdata
  ev.ydata = 0. if inaxes else None
  canvas.callbacks.process(name, ev)


matplotlib.use("Agg", force=True)

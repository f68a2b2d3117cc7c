"""C32: the example program analyses the chosen region of the chosen sound"""
import contextlib
import importlib.util
import io
import itertools
import logging
import os
import shutil
import tempfile
import time
import types
from unittest import mock

import numpy as np
import vp
from sample.utils import dsp
from scipy.io import wavfile


CLOCK, NOW = [None], [0]
monotonic = time.monotonic
with mock.patch.object(
    time, "monotonic", lambda: monotonic() if CLOCK[0] is None else CLOCK[0]):
  import throttle  # pylint: disable=W0611


def load(*path):
  p = os.path.join(vp.REPO, "scripts", *path)
  spec = importlib.util.spec_from_file_location("vp_" + path[-1][:-3], p)
  m = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(m)
  return m


ex = load("beatsdrop", "example.py")


@contextlib.contextmanager
def scratch():
  old = os.getcwd()
  d = tempfile.mkdtemp(prefix="vp_c32_")
  os.chdir(d)
  try:
    yield d
  finally:
    os.chdir(old)
    shutil.rmtree(d)


def parse(*argv):
  return ex.ArgParser().custom_parse_args((*argv, "-l", "CRITICAL"))


# --- Loading -------------------------------------------------------------------------------
FORMATS = ["uint8", "int16", "int32", "float32", "float64"]
LEVELS = [-1, -0.5, 0, 0.25, 127 / 128]


def stored(v, fmt):
  """Sample of a file from its level"""
  if fmt == "uint8":
    return round(v * 128) + 128
  if fmt.startswith("int"):
    return round(v * 2**(int(fmt[3:]) - 1))
  return v


def gen_load(tier):
  for fmt in FORMATS:
    for ch in (1, 2, 3) if tier != "quick" else (1, 2):
      for url in (False, True):
        for fs in (8000, 44100):
          yield [fmt, ch, url, fs]


def run_load(case, st):
  fmt, ch, url, fs = case
  n = 2 if ch < 3 else 1
  for vals in itertools.product(LEVELS, repeat=n * ch):
    a = np.reshape(vals, (n, ch))
    data = np.array([[stored(v, fmt) for v in r] for r in a], dtype=fmt)
    with scratch():
      wavfile.write("f.wav", fs, data if ch > 1 else data[:, 0])
      with open("f.wav", "rb") as f:
        raw = f.read()
      got = []

      def get(u, **kw):
        got.append(u)
        return types.SimpleNamespace(content=raw, status_code=200, ok=True,
                                     raise_for_status=lambda: None)

      if url:
        os.remove("f.wav")
      with mock.patch.object(ex.requests, "get", get):
        args = ex.load_audio(parse(*(
            ["-u", "http://localhost/dir/g.wav"] if url else ["-i", "f.wav"])))
      vp.check(got == ["http://localhost/dir/g.wav"] * url, "downloads %r", got)
      vp.check(args.input == ("g.wav" if url else "f.wav"), "input %r", args.input)
    vp.check(args.fs == fs, "sampling frequency %r", args.fs)
    vp.check(np.issubdtype(args.x.dtype, np.floating), "type %r", args.x.dtype)
    vp.check_close(args.x, [sum(r) / ch for r in a.tolist()],
                   "sound from %r" % (data.tolist(),), rtol=1e-6, atol=1e-7)
    st.outcome((case, vals))
    st.transitions += 1
  st.traces += 1


# --- Cropping ------------------------------------------------------------------------------
def region(ons, n, fs, start, end, no_crop):
  """First and last+1 samples of the region"""
  if no_crop:
    return 0, n
  i0 = None if start is None else int(start * fs)
  i1 = None if end is None else int(end * fs)
  ons = [i for i in range(n) if ons[i]]
  if i0 is None and i1 is None:
    if not ons:
      return 0, n
    ends = ons[1:] + [n]
    best = max(range(len(ons)), key=lambda k: (ends[k] - ons[k], -k))
    return ons[best], ends[best]
  if i1 is None:
    i1 = min([i for i in ons if i > i0] + [n])
  if i0 is None:
    i0 = max([i for i in ons if i < i1] + [0])
  return i0, i1


def gen_crop(tier):
  n = 5 if tier == "quick" else 8
  for k in range(1, n + 1):
    for ons in itertools.product((0, 1), repeat=k):
      yield list(ons)


def run_crop(ons, st):
  n = len(ons)
  x = np.arange(1, n + 1) / 16
  times = [None, 0] + [t / 4 for t in range(1, n + 2)] + [0.3]
  for fs, fmt in ((4, "float64"), (4, "float32")):
    for start, end in itertools.product(times, times):
      if start is not None and end is not None and start > end:
        continue
      for no_crop, out in ((False, None), (False, "o.wav"), (True, "o.wav")):
        if out and (start, end) != (None, None) and fmt == "float32":
          continue
        argv = ["-i", "f.b.wav"]
        argv += ["-s", str(start)] if start is not None else []
        argv += ["-e", str(end)] if end is not None else []
        argv += ["-c", out] if out else []
        argv += ["--no-crop"] if no_crop else []
        with scratch():
          args = parse(*argv)
          args.fs, args.x = fs, x.astype(fmt)
          seen = []

          def detect(y, *a, **k):
            seen.append(np.array(y))
            return np.array(ons, dtype=bool)

          with mock.patch.object(dsp, "onset_detection", detect):
            r = ex.crop_audio(args)
          i0, i1 = region(ons, n, fs, start, end, no_crop)
          vp.check(r is args, "result %r", r)
          for s in seen:
            vp.check(np.array_equal(s, x.astype(fmt)), "onsets of %r", s)
          vp.check(np.array_equal(args.x, x[i0:i1]), "onsets at %r, start %r, end "
                   "%r: region %r instead of %r", np.flatnonzero(ons).tolist(),
                   start, end, args.x * 16 - 1, list(range(i0, min(i1, n))))
          f = os.listdir(".")
          want = [] if no_crop else [out or "f.b-cropped.wav"]
          vp.check(f == want, "files %r instead of %r", f, want)
          if want and i1 > i0 and i0 < n:
            rate, y = wavfile.read(want[0])
            vp.check(rate == fs and np.array_equal(y, args.x),
                     "file has %r instead of %r", y, args.x)
        st.outcome((ons, start, end, no_crop, out))
        st.transitions += 1
  st.traces += 1


def gen_onset(tier):
  for fs in (8000, 11025):
    for at in ([0.1], [0.2, 0.6], [0.1, 0.3, 0.9]):
      for rng in ((None, None), (0.15, None), (None, 0.5), (0.05, 0.7)):
        yield [fs, at, list(rng)]


def run_onset(case, st):
  """Onsets of real sounds"""
  fs, at, (start, end) = case
  n = int(1.2 * fs)
  t = np.arange(n) / fs
  x = 1e-4 * np.cos(t * 777)
  for a in at:
    x += np.where(t >= a, np.exp(-(t - a) * 12) * np.sin((t - a) * 2000), 0)
  with scratch():
    wavfile.write("f.wav", fs, x)
    argv = [] if start is None else ["-s", str(start)]
    argv += [] if end is None else ["-e", str(end)]
    args = ex.crop_audio(ex.load_audio(parse("-i", "f.wav", *argv)))
    i0, i1 = region(np.asarray(dsp.onset_detection(x)), n, fs, start, end, False)
    vp.check(np.array_equal(args.x, x[i0:i1]), "region of %d samples instead of "
             "%d", args.x.size, i1 - i0)
  st.traces += 1
  st.outcome((case, i0, i1))


# --- Progress ------------------------------------------------------------------------------
class Bar:
  """Records what would be displayed"""

  def __init__(self):
    self.total, self.n, self.last_print_n = 100, 0, 0
    self.shown = []

  def refresh(self, *a, **k):
    self.shown.append((self.n, self.total))

  def clear(self, *a, **k):
    self.shown.append("clear")

  def close(self):
    self.shown.append("close")


OPS = [("start", 3), ("start", 5), ("up", None), ("up", 2), ("up", 4), ("stop", None)]


def gen_prog(tier):
  n = 4 if tier == "quick" else 6
  for k in range(n + 1):
    for c in itertools.product(range(len(OPS)), repeat=k):
      for bar, wait in ((True, 1), (True, 0), (True, 0.11), (False, 1)):
        yield [list(c), bar, wait]


def run_prog(case, st):
  try:
    _run_prog(case, st)
  finally:
    CLOCK[0] = None


def _run_prog(case, st):
  ops, with_bar, wait = case
  bar = Bar() if with_bar else None
  fa = ex.ScriptFitArgs(progressbar=bar)
  cur, total = 0, 100
  valid, late = set(), 0
  NOW[0] = CLOCK[0] = max(NOW[0] + 10, monotonic())
  for o in ops:
    CLOCK[0] += wait
    NOW[0] = CLOCK[0]
    op, v = OPS[o]
    shown = len(bar.shown) if with_bar else 0
    if op == "start":
      fa.progress_start(v)
      cur, total = 0, v
    elif op == "up":
      fa.progress_update(v)
      cur = cur + 1 if v is None else v
    else:
      fa.progress_stop()
      cur = total
    valid.add((cur, total))
    if with_bar:
      new = bar.shown[shown:]
      vp.check(all(s in valid for s in new), "%r displayed instead of %r", new, (cur, total))
      late = 0 if new else late + 1
      # the throttle may skip the first update after a pause
      vp.check(op == "up" and (wait < 1 or not new and late < 2) or new[-1:] == [(cur, total)],
               "%r displayed at %s instead of %r", new, op, (cur, total))
      vp.check(all(s == (cur, total) for s in new),
               "%r displayed instead of %r", new, (cur, total))
  # each task is given once, in order
  vp.check(list(fa.starmap(lambda a, b: (b, a), [(1, 2), (3, 4)])) == [(2, 1), (4, 3)],
           "starmap")
  st.traces += 1
  st.transitions += len(ops)
  st.outcome(case)


# --- Resynthesis ----------------------------------------------------------------------------
class Model:
  def __init__(self, y):
    self.y, self.seen = y, []

  def predict(self, t, n_modes=None, **kw):
    self.seen.append((np.array(t), n_modes, kw))
    return self.y.copy()


PEAKS = [0, 1e-6, 0.5, 10**(-0.3 / 20), 0.98, 1, 1.5, 40]


def gen_resynth(tier):
  for p in range(len(PEAKS)):
    for sign in (-1, 1):
      for clip in (False, True):
        for out in (None, "out.wav"):
          for nm in (None, 3):
            yield [p, sign, clip, out, nm]


def run_resynth(case, st):
  p, sign, clip, out, nm = case
  for shape in ((1,), (0.5, 1), (1, -0.25, 0.75), (-0.3, 0.1, 1, 0)):
    y = sign * PEAKS[p] * np.array(shape, dtype=float)
    for fs in (8, 44100):
      with scratch():
        args = parse("-i", "dir.x/in.wav", *(["--clip"] if clip else []),
                     *(["-o", out] if out else []))
        os.makedirs("dir.x")
        args.fs, args.x, args.model = fs, np.zeros(y.size), Model(y)
        r = ex.resynth_audio(args, **({} if nm is None else {"n_modes": nm}))
        vp.check(r is args and len(args.model.seen) == 1, "result")
        t, m, _ = args.model.seen[0]
        vp.check_close(t, [i / fs for i in range(y.size)], "instants")
        vp.check(m == nm, "number of modes %r", m)
        path = out or "dir.x/in-output.wav"
        files = sorted(os.path.join(b, f)[2:] for b, _, fs_ in os.walk(".") for f in fs_)
        vp.check(files == [path], "files %r", files)
        rate, z = wavfile.read(path)
        th = 10**(-0.3 / 20)
        want = y if clip or PEAKS[p] <= th else y * (th / PEAKS[p])
        vp.check(rate == fs, "rate %r", rate)
        if abs(PEAKS[p] - th) > 1e-9:
          vp.check_close(z, want, "resynthesis with peak %r" % PEAKS[p], rtol=1e-6,
                         atol=1e-9)
        vp.check(clip or np.max(np.abs(z)) <= th * (1 + 1e-6), "clipping")
        st.outcome((case, shape, fs))
        st.transitions += 1
  st.traces += 1


# --- Whole program ---------------------------------------------------------------------------
def gen_main(tier):
  for fmt in ("int16", "float32") if tier == "quick" else FORMATS:
    for crop in (("--no-crop",), ("-s", "0.1", "-e", "0.75"), ()):
      for bar in (True, False):
        yield [fmt, list(crop), bar]


def run_main(case, st):
  """Modes of a sound of one partial, starting at a known instant"""
  fmt, crop, bar = case
  fs, f, d = 16000, 1000, 0.25
  t = np.arange(int(0.9 * fs)) / fs
  x = np.where(t >= 0.1, 0.8 * np.exp(-2 * (t - 0.1) / d) * np.cos(
      2 * np.pi * f * (t - 0.1)), 0)
  data = np.array([stored(v, fmt) for v in x]).astype(fmt)
  with scratch():
    wavfile.write("in.wav", fs, data)
    kept = []
    fit = ex.fit_model

    def fit_model(args, n_jobs=6):
      r = fit(args, n_jobs=2)
      kept.append(args)
      return r

    err = io.StringIO()
    with mock.patch.object(ex, "fit_model", fit_model), \
        contextlib.redirect_stderr(err):
      ex.main("-i", "in.wav", "-l", "CRITICAL", *crop, *(
          [] if bar else ["--no-tqdm"]))
    vp.check(bool(err.getvalue()) == bar, "progress bar: %r", err.getvalue()[:80])
    args, = kept
    files = sorted(os.listdir("."))
    want = ["in-output.wav", "in.wav"] if crop == ["--no-crop"] else [
        "in-cropped.wav", "in-output.wav", "in.wav"]
    vp.check(files == want, "files %r", files)
    if crop == ["-s", "0.1", "-e", "0.75"]:
      i = int(0.1 * fs)
      vp.check_close(args.x, x[i:int(0.75 * fs)], "region", rtol=1e-3, atol=1e-2)
    rate, y = wavfile.read("in-output.wav")
    vp.check(rate == fs and y.size == args.x.size, "size of the resynthesis")
    vp.check(args.model.freqs_.size >= 1, "no modes")
    k = int(np.argmax(np.abs(args.model.energies_)))
    vp.check(abs(args.model.freqs_[k] - f) < 3, "frequency %r", args.model.freqs_)
    vp.check(abs(args.model.decays_[k] / d - 1) < 0.2, "decay %r", args.model.decays_)
    vp.check(args.model.sinusoidal.tracker.fs == fs, "sampling frequency")
    vp.check_close(y, np.asarray(args.model.predict(np.arange(y.size) / fs)) * min(
        1, 10**(-0.3 / 20) / np.max(np.abs(args.model.predict(np.arange(y.size) / fs)))),
                   "resynthesis", rtol=1e-6, atol=1e-8)
  st.traces += 1
  st.outcome((case, args.model.freqs_.size))


if __name__ == "__main__":
  logging.disable(logging.CRITICAL)
  vp.main(
      "C32", [("load", gen_load, run_load, {"chunk": 4}),
              ("crop", gen_crop, run_crop, {"chunk": 8}),
              ("onsets", gen_onset, run_onset, {"chunk": 4}),
              ("progress", gen_prog, run_prog, {"chunk": 64}),
              ("resynthesis", gen_resynth, run_resynth, {"chunk": 16}),
              ("program", gen_main, run_main, {"serial": True})],
      level="exploration",
      rule="every format, channel count and pair of samples; every pattern of "
      "onsets with every pair of start and end times; every sequence of progress "
      "operations; every peak level",
      bounds={"quick": "5 samples, 4 operations", "thorough": "8, 6"},
      assumptions=["onsets are those of C13"])

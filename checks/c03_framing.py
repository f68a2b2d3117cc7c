"""C03: framing, spectra and peaks of the sinusoidal analysis"""
import cmath
import itertools
import math

import numpy as np
import vp
from sample import SAMPLE, sms
from sample.sms import mm, sm
from sample.utils import dsp as dsp_utils


# --- Reference ---------------------------------------------------------------
def ref_frames(x, wsize, hop, padded):
  x = list(x)
  if padded:
    x = [0.0] * ((wsize + 1) // 2) + x + [0.0] * (wsize // 2)
  return [x[i:i + wsize] for i in range(0, len(x) - wsize + 1, hop)]


def ref_dft(frame, w, n):
  """Magnitude and phase of each bin; time zero is the window center"""
  c = len(w) // 2
  r = []
  for k in range(n // 2 + 1):
    z = sum(f * v * cmath.exp(-2j * math.pi * k * (m - c) / n)
            for m, (f, v) in enumerate(zip(frame, w)))
    r.append(z)
  return r


def ref_peaks(mx, t):
  return [
      i for i in range(1,
                       len(mx) - 1)
      if mx[i] > mx[i - 1] and mx[i] > mx[i + 1] and (t is None or mx[i] > t)
  ]


def ref_vertex(l, c, r):
  """Vertex (offset, height) of the parabola through three points"""
  a, b = (l + r) / 2 - c, (r - l) / 2
  d = -b / (2 * a)
  return d, a * d * d + b * d + c


def wrap(p):
  return (p + math.pi) % (2 * math.pi) - math.pi


# --- Scenario: windows over an array -----------------------------------------
def gen_windows(tier):
  top = 12 if tier == "quick" else 20
  for n in range(top + 1):
    for w in range(1, 8):
      for hop in [None] + list(range(1, 7)):
        yield [n, w, hop]


def run_windows(case, st):
  n, w, hop = case
  h = w if hop is None else hop
  x = np.arange(n) + 100.0
  exp = ref_frames(x, w, h, False)
  if 1 + (n - w) // h < 0:
    return None  # shorter than one window by more than a hop: unspecified
  vp.check(dsp_utils.n_windows(n, w, hop) == len(exp),
           "n_windows: %r instead of %r", dsp_utils.n_windows(n, w, hop),
           len(exp))
  keep = x.copy()
  got = dsp_utils.overlapping_windows(x, w, hop)
  vp.check(got.shape == (len(exp), w), "windows have shape %r", got.shape)
  vp.check(got.tolist() == exp, "windows are %r", got.tolist())
  vp.check(np.array_equal(x, keep), "input changed")
  # 2d and non-contiguous inputs are linearized first
  if n % 2 == 0 and n:
    y = np.stack((x, -x), axis=1)[:, 0]
    got = dsp_utils.overlapping_windows(y, w, hop)
    vp.check(got.tolist() == exp, "non contiguous input: %r", got.tolist())
    got = dsp_utils.overlapping_windows(x.reshape(2, -1), w, hop)
    vp.check(got.tolist() == exp, "2d input: %r", got.tolist())
  return tuple(map(tuple, exp))


# --- Scenario: frames of a model ---------------------------------------------
def gen_frames(tier):
  top = 11 if tier == "quick" else 17
  for n in range(0, top + 1):
    for w in range(2, 7):
      for hop in range(1, 5):
        for padded in (False, True):
          yield [n, w, hop, padded]


def run_frames(case, st):
  n, w, hop, padded = case
  if not padded and 1 + (n - w) // hop < 0:
    return None
  x = np.sin(1.7 * np.arange(n) + .3) + .01 * np.arange(n)
  win = np.hanning(w + 2)[1:-1] + .05 * np.arange(w)
  for cls in (sm.SinusoidalModel, mm.ModalModel):
    m = cls(w=win, n=8, padded=padded, tracker__h=hop, tracker__fs=10)
    exp = ref_frames(x, w, hop, padded)
    got = m.time_frames(x)
    vp.check(np.shape(got)[0] == len(exp), "%d frames instead of %d",
             np.shape(got)[0], len(exp))
    for i, (g, e) in enumerate(zip(got, exp)):
      vp.check(list(g) == e, "frame %d is %r instead of %r", i, list(g), e)
    y, a = m.pad_input(x)
    if padded:
      # every sample is analysed and the first window is centered on sample 0
      vp.check(a == (w + 1) // 2, "padding is %r", a)
      vp.check(list(y[a:a + n]) == list(x), "padded signal misplaced")
      cover = {
          i * hop + j - a
          for i in range(len(exp)) for j in range(w)
      } if hop <= 1 else None
      if cover is not None:
        vp.check(set(range(n)) <= cover, "samples are not covered")
    else:
      vp.check(a == 0 and list(y) == list(x), "unpadded input was changed")
  return (n, w, hop, padded, len(exp))


# --- Scenario: sequences of analyses -----------------------------------------
def gen_kept(tier):
  one = [(w, h, n) for w in (3, 4, 6) for h in (1, 3) for n in (9, 10, 7, 5)]
  top = 2 if tier == "quick" else 3
  for k in range(2, top + 1):
    for p in (True, False):
      for s in itertools.product(one, repeat=k):
        if k == 2 or len({c[1] for c in s}) == 1:
          yield [p, [list(c) for c in s]]


def run_kept(case, st):
  """Frames do not depend on other analyses, whenever they are read"""
  padded, seq = case
  models, todo, early = {}, [], []
  for i, (w, hop, n) in enumerate(seq):
    x = np.cos(1.3 * np.arange(n) * (i + 1) + i) + 2 + i
    win = np.hanning(w + 2)[1:-1] + .05 * np.arange(w)
    m = models.setdefault((w, hop), sm.SinusoidalModel(
        w=win, n=8, padded=padded, tracker__h=hop, tracker__fs=10))
    pad, a = m.pad_input(x)
    early.append((pad, pad.copy(), a, x))
    todo.append((m.time_frames(x), ref_frames(x, w, hop, padded), x, x.copy()))
  for pad, keep, a, x in early:
    vp.check(np.array_equal(pad, keep), "padded sound changed afterwards")
    vp.check(np.array_equal(pad[a:a + x.size], x) and not np.any(
        pad[:a]) and not np.any(pad[a + x.size:]), "stale samples in %r", pad)
  for i, (fr, exp, x, keep) in enumerate(todo):
    got = [list(f) for f in fr]
    vp.check(got == exp, "frames of sound %d are %r instead of %r", i, got, exp)
    vp.check(np.array_equal(x, keep), "sound %d changed", i)
  st.traces += 1
  return (padded, len(models), [len(t[1]) for t in todo])


# --- Scenario: spectrum ------------------------------------------------------
def gen_dft(tier):
  vals = (0.0, 1.0, -2.0)
  for w in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6):
    for n in (w, w + 1, 8):
      for x in itertools.product(vals, repeat=w):
        yield [list(x), n]


def run_dft(case, st):
  x, n = case
  w = np.linspace(.4, 1.3, len(x))
  xa = np.array(x)
  mx, px = sms.dsp.dft(xa, w, n)
  vp.check(list(xa) == x, "input changed")
  exp = ref_dft(x, w, n)
  vp.check(len(mx) == len(exp) and len(px) == len(exp), "size of spectrum")
  for k, z in enumerate(exp):
    if abs(z) > 1e-9:
      vp.check(abs(mx[k] - 20 * math.log10(abs(z))) < 1e-6,
               "bin %d: magnitude %r instead of %r", k, mx[k],
               20 * math.log10(abs(z)))
      vp.check(abs(wrap(px[k] - cmath.phase(z))) < 1e-6,
               "bin %d: phase %r instead of %r", k, px[k], cmath.phase(z))
    else:
      vp.check(mx[k] < -170 and math.isfinite(mx[k]) and math.isfinite(px[k]),
               "bin %d: silent bin has magnitude %r", k, mx[k])
  vp.check(np.all(np.abs(np.diff(px)) <= math.pi + 1e-6),
           "phase is not unwrapped: %r", px)
  return tuple(round(abs(z), 6) for z in exp)


# --- Scenario: peaks ---------------------------------------------------------
def gen_peaks(tier):
  for n in range(1, 8 if tier == "quick" else 9):
    for x in itertools.product((0, 1, 2), repeat=n):
      yield list(x)
  for n in range(3, 6 if tier == "quick" else 7):
    for x in itertools.product((0, 1, 2, 5), repeat=n):
      if 5 in x:
        yield list(x)


def run_peaks(case, st):
  x = np.array(case, dtype=float)
  ph = np.array([(i * i * 7 % 5) / 3 for i in range(x.size)])
  out = []
  for t in (None, 0, 1, -3.5):
    exp = ref_peaks(case, t)
    got = sms.dsp.peak_detect(x, t)
    vp.check(list(got) == exp, "threshold %r: peaks %r instead of %r", t,
             list(got), exp)
    loc, mag, pha = sms.dsp.peak_detect_interp(x, ph, t)
    loc2, mag2 = sms.dsp.peak_detect_interp(x, t=t)
    vp.check(list(loc) == list(loc2) and list(mag) == list(mag2),
             "refinement depends on phases")
    vp.check(len(loc) == len(exp), "number of refined peaks")
    for p, l, m, f in zip(exp, loc, mag, pha):
      d, h = ref_vertex(*(float(v) for v in case[p - 1:p + 2]))
      vp.check(abs(l - p - d) < 1e-9 and abs(m - h) < 1e-9,
               "peak at %d: refined to (%r, %r) instead of (%r, %r)", p, l, m,
               p + d, h)
      i = min(max(int(math.floor(l)), 0), x.size - 2)
      e = ph[i] + (ph[i + 1] - ph[i]) * (l - i)
      vp.check(abs(f - e) < 1e-9, "peak at %d: phase %r instead of %r", p, f,
               e)
    out.append(tuple(exp))
  vp.check(list(x) == case, "input changed")
  return tuple(out)


# --- Scenario: whole analysis ------------------------------------------------
AMP = (0.31, -0.74, 1.17)


def gen_fit(tier):
  n = 7 if tier == "quick" else 9
  for x in itertools.product(range(3), repeat=n):
    yield list(x)


def run_fit(case, st):
  x = np.array([AMP[i] * (1 + .0137 * j * j) for j, i in enumerate(case)])
  key = []
  for wsize, hop, padded, reverse, t in (
      (4, 1, False, False, -60), (4, 2, True, True, -6), (3, 1, True, False, 0),
      (5, 3, True, True, -60)):
    win = np.linspace(.3, 1.1, wsize)
    cfg = dict(w=win, n=16, t=t, padded=padded, tracker__fs=32,
               tracker__h=hop, tracker__min_sine_dur=0,
               tracker__freq_dev_offset=2.5, tracker__freq_dev_slope=0.01,
               tracker__frequency_bounds=(None, None),
               tracker__peak_threshold=-50,
               tracker__reverse=reverse, intermediate__save=True)
    m = mm.ModalModel(**cfg)
    xx = x.copy()
    vp.check(m.fit(xx) is m, "fit does not return the model")
    vp.check(np.array_equal(xx, x), "input changed")
    y = x[::-1] if reverse else x
    exp = ref_frames(y, wsize, hop, padded)
    stft = m.intermediate["stft"]
    peaks = m.intermediate["peaks"]
    vp.check(len(stft) == len(exp) and len(peaks) == len(exp),
             "%d spectra and %d peak sets for %d frames", len(stft),
             len(peaks), len(exp))
    wn = win / sum(win)
    fresh = mm.ModalTracker(fs=32, h=hop, min_sine_dur=0, freq_dev_offset=2.5,
                            freq_dev_slope=.01, frequency_bounds=(None, None),
                            peak_threshold=-50, reverse=reverse).reset()
    for i, e in enumerate(exp):
      z = ref_dft(e, wn, 16)
      mx = [20 * math.log10(max(abs(v), 1e-16)) for v in z]
      if all(abs(v) > 1e-9 for v in z):
        vp.check_close(stft[i][0], mx, "frame %d magnitudes" % i, 1e-6, 1e-6)
      rp = ref_peaks([float(v) for v in stft[i][0]], t)
      loc = peaks[i][0]
      vp.check(len(loc) == len(rp), "frame %d: %d peaks instead of %d", i,
               len(loc), len(rp))
      for p, l, g in zip(rp, loc, peaks[i][1]):
        d, h = ref_vertex(*(float(v) for v in stft[i][0][p - 1:p + 2]))
        vp.check(abs(l - p - d) < 1e-6 and abs(g - h) < 1e-6,
                 "frame %d peak %d: (%r, %r) instead of (%r, %r)", i, p, l, g,
                 p + d, h)
      fresh(np.asarray(loc) * 32 / 16, peaks[i][1], peaks[i][2])
    a, b = m.tracks_, list(fresh.all_tracks_)
    vp.check(len(a) == len(b), "%d tracks instead of %d", len(a), len(b))
    for t1, t2 in zip(a, b):
      for k in ("start_frame", "freq", "mag", "phase"):
        vp.check_close(t1[k], t2[k], "track %s" % k)
    vp.check_close(m.w_, wn, "effective window")
    # the analysis of a whole model is the same
    full = SAMPLE(sinusoidal=mm.ModalModel(**cfg)).fit(xx)
    vp.check(np.array_equal(xx, x), "input changed by the whole model")
    c = full.sinusoidal.tracks_
    vp.check(len(a) == len(c), "%d tracks instead of %d", len(c), len(a))
    for t1, t2 in zip(a, c):
      for k in ("start_frame", "freq", "mag", "phase"):
        vp.check_close(t2[k], t1[k], "track %s in the whole model" % k)
    key.append(len(a))
  return (tuple(key), tuple(len(p[0]) for p in peaks))


if __name__ == "__main__":
  vp.main(
      "C03", [("windows", gen_windows, run_windows, {"chunk": 64}),
              ("frames", gen_frames, run_frames, {"chunk": 32}),
              ("kept frames", gen_kept, run_kept, {"chunk": 64}),
              ("spectrum", gen_dft, run_dft, {"chunk": 64}),
              ("peaks", gen_peaks, run_peaks, {"chunk": 128}),
              ("fit", gen_fit, run_fit, {"chunk": 32})],
      level="exploration",
      rule="every input shape and every small signal over a finite alphabet; "
      "frames, spectra, peaks and tracks are compared with brute-force "
      "references; an outcome is the set of frames, peaks or tracks observed",
      bounds={
          "quick": "arrays <=12, windows <=7, hops <=6; spectra of all "
                   "3-valued frames <=4; peaks of all 3-valued arrays <=7; "
                   "whole analysis of all 3-valued signals of 7 samples",
          "thorough": "arrays <=20; frames <=6; peak arrays <=8; signals of 9"
      },
      assumptions=["signals shorter than one window by more than a hop are "
                   "outside the property", "phases are compared modulo 2 pi"])

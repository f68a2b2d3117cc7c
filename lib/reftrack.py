"""Boring reference model of sinusoidal / modal partial tracking, and a
lock-step explorer which drives it together with the real tracker"""
import copy
import math

import numpy as np

import vp


class RefTracker:
  """Plain-list model of the tracker"""

  def __init__(self, modal=False, fs=4, h=2, max_n_sines=100, min_sine_dur=0.0,
               freq_dev_offset=2.0, freq_dev_slope=0.0625, reverse=False,
               frequency_bounds=(20, 16000), peak_threshold=-90,
               merge_strategy="average", strip_t=None):
    self.modal = modal
    self.rate = fs / h
    self.max_n = max_n_sines
    self.off, self.slope = freq_dev_offset, freq_dev_slope
    self.min_len = max(2, math.ceil(min_sine_dur * self.rate))
    self.reverse = reverse
    self.bounds = frequency_bounds
    self.thr = peak_threshold
    self.merge = merge_strategy
    self.strip = None if strip_t is None else (
        strip_t if math.isinf(strip_t) else math.ceil(strip_t * self.rate))
    self.active = []
    self.done = []
    self.frame = 0

  def dev(self, f):
    return self.off + self.slope * f

  def ok(self, t):
    if len(t["freq"]) < self.min_len:
      return False
    if not self.modal:
      return True
    mean = sum(t["freq"]) / len(t["freq"])
    lo, hi = self.bounds
    if lo is not None and mean < lo:
      return False
    if hi is not None and mean > hi:
      return False
    n = len(t["mag"])
    xs = list(range(n))
    if self.reverse:
      xs.reverse()
    xm, ym = sum(xs) / n, sum(t["mag"]) / n
    k = (sum((x - xm) * (y - ym) for x, y in zip(xs, t["mag"])) /
         sum((x - xm)**2 for x in xs))
    q = ym - k * xm
    if any(v != t["mag"][0] for v in t["mag"]):
      # the alphabet keeps every decision away from rounding noise
      assert abs(k) > 1e-6 and abs(q - self.thr) > 1e-6, t
    return k <= 0 and q >= self.thr

  def finish(self, t):
    if not self.ok(t):
      return
    best = None
    if self.modal:
      for u in self.done:
        gap = t["start"] - (u["start"] + len(u["freq"]))
        if gap < 1:
          continue
        if self.merge == "single":
          d = abs(u["freq"][-1] - t["freq"][0])
        else:
          fin = [f for f in u["freq"] if f == f]
          d = abs(sum(fin) / len(fin) - sum(t["freq"]) / len(t["freq"]))
        if best is None or d < best[0]:
          best = (d, u, gap)
    if best is not None and best[0] < self.dev(t["freq"][0]):
      for k in ("freq", "mag", "phase"):
        best[1][k] = best[1][k] + [math.nan] * best[2] + t[k]
    else:
      self.done.append({k: (list(v) if k != "start" else v)
                        for k, v in t.items()})

  def step(self, peaks):
    """peaks: list of (freq, mag, phase) by increasing frequency"""
    free = list(self.active)
    used = set()
    for i in sorted(range(len(peaks)), key=lambda j: -peaks[j][1]):
      if not free:
        break
      f = peaks[i][0]
      t = min(free, key=lambda u: abs(u["freq"][-1] - f))
      if abs(t["freq"][-1] - f) < self.dev(f):
        for k, v in zip(("freq", "mag", "phase"), peaks[i]):
          t[k].append(v)
        free = [u for u in free if u is not t]
        used.add(i)
    dead = [t for t in self.active if any(t is u for u in free)]
    self.active = [t for t in self.active if not any(t is u for u in free)]
    for t in reversed(dead):
      self.finish(t)
    for i, p in enumerate(peaks):
      if i in used:
        continue
      if len(self.active) >= self.max_n:
        break
      self.active.append({
          "start": self.frame,
          "freq": [p[0]],
          "mag": [p[1]],
          "phase": [p[2]]
      })
    self.frame += 1

  def visible(self):
    r = self.done + [t for t in self.active if self.ok(t)]
    if self.modal and self.strip is not None:
      r = [
          t for t in r
          if (self.frame - (t["start"] + len(t["freq"])) if self.
              reverse else t["start"]) <= self.strip
      ]
    return r


def canon_ref(tracks):
  return sorted(((t["start"],) + tuple(
      tuple("nan" if v != v else round(v, 9) for v in t[k])
      for k in ("freq", "mag", "phase")) for t in tracks), key=repr)


def canon_real(tracks):
  return sorted(((int(t["start_frame"]),) + tuple(
      tuple("nan" if v != v else round(v, 9)
            for v in np.asarray(t[k], dtype=float).tolist())
      for k in ("freq", "mag", "phase")) for t in tracks), key=repr)


def arrays(peaks):
  return tuple(
      np.array([p[i] for p in peaks], dtype=float) for i in range(3))


def compare(real, ref, trace):
  """Observable state of the real tracker against the model"""
  vp.check(real.n_active_tracks == len(ref.active),
           "after %r: %d tracks continue, expected %d", trace,
           real.n_active_tracks, len(ref.active))
  got = canon_real(real.all_tracks_)
  exp = canon_ref(ref.visible())
  vp.check(got == exp, "after %r: tracks are\n%r\nexpected\n%r", trace, got,
           exp)
  return got


def lockstep(make_real, make_ref, peaks_of, letters, prefix, depth, st):
  """Every continuation of ``prefix`` up to ``depth`` frames in total"""

  def advance(real, ref, letter, trace):
    peaks = peaks_of(letter, ref.frame)
    a = arrays(peaks)
    keep = [x.copy() for x in a]
    real(*a)
    vp.check(all(np.array_equal(x, y) for x, y in zip(a, keep)),
             "after %r: tracking changed the peak arrays it was given", trace)
    ref.step(peaks)
    st.transitions += 1
    st.states += 1
    st.outcome(compare(real, ref, trace))

  def rec(real, ref, trace):
    if len(trace) >= depth:
      # reading the result leaves the state as it was
      compare(real, ref, trace)
      st.traces += 1
      return
    for letter in letters:
      r2, m2 = copy.deepcopy(real), copy.deepcopy(ref)
      tr = trace + [letter]
      advance(r2, m2, letter, tr)
      rec(r2, m2, tr)

  real, ref = make_real(), make_ref()
  trace = []
  for letter in prefix:
    trace = trace + [letter]
    advance(real, ref, letter, trace)
  rec(real, ref, trace)

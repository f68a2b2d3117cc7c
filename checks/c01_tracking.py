"""C01: frame-to-frame continuation of sinusoidal tracks"""
import fractions
import itertools

import numpy as np
import reftrack
import vp
from sample.sms import sm

F = [64.0, 70.0, 66.0, 96.0]
# subsets of the frequency grid, with every loudness order
LETTERS = {
    k: [
        list(p) for n in range(k + 1)
        for s in itertools.combinations(range(4), n)
        for p in itertools.permutations(s)
    ] for k in (2, 3, 4)
}
CFG = [
    {},
    {"max_n_sines": 1},
    {"max_n_sines": 2},
    {"min_sine_dur": 1.25},
    {"freq_dev_offset": 0.0, "freq_dev_slope": 0.0},
    {"freq_dev_offset": 30.0, "freq_dev_slope": 0.0, "max_n_sines": 3},
]
BASE = dict(fs=4, h=2, min_sine_dur=0.0, freq_dev_offset=2.0,
            freq_dev_slope=0.0625)


def peaks_of(letter, frame):
  """letter: grid indices, loudest first"""
  return sorted(
      (F[i], -20.0 * r - i - frame / 4, F[i] / 128 + frame)
      for r, i in enumerate(letter))


def run(case, st):
  cfg = {**BASE, **case["cfg"]}
  reftrack.lockstep(
      lambda: sm.SineTracker(**cfg).reset(),
      lambda: reftrack.RefTracker(**cfg), peaks_of,
      LETTERS[case["letters"]], case["prefix"], case["depth"], st)


def gen_wide(tier):
  """up to 3 (thorough: 4) simultaneous peaks"""
  k = 3 if tier == "quick" else 4
  for cfg in CFG:
    for a in LETTERS[k]:
      for b in LETTERS[k] if tier != "quick" else [None]:
        yield {"cfg": cfg, "letters": k, "depth": 3,
               "prefix": [a] if b is None else [a, b]}


def gen_deep(tier):
  """longer histories, at most 2 simultaneous peaks"""
  depth = 4 if tier == "quick" else 5
  for cfg in CFG:
    for a, b in itertools.product(LETTERS[2], repeat=2):
      yield {"cfg": cfg, "letters": 2, "prefix": [a, b], "depth": depth}


CLOSE = [64.0, 64.0 + 2.0**-20, 64.0 - 2.0**-10, 64.0 + 2.0**-9]


def close_peaks(letter, frame):
  """Frequencies and magnitudes that differ very little"""
  return sorted(
      (CLOSE[i], -20.0 - (4 * r + i + frame % 3) * 2.0**-20,
       CLOSE[i] / 128 + frame) for r, i in enumerate(letter))


def run_close(case, st):
  cfg = {**BASE, **case["cfg"]}
  reftrack.lockstep(
      lambda: sm.SineTracker(**cfg).reset(),
      lambda: reftrack.RefTracker(**cfg), close_peaks,
      LETTERS[case["letters"]], case["prefix"], case["depth"], st)


def gen_close(tier):
  for cfg in ({}, {"max_n_sines": 2},
              {"freq_dev_offset": 2.0**-10, "freq_dev_slope": 0.0}):
    for k in (2, 3):
      for a in LETTERS[k]:
        yield {"cfg": cfg, "letters": k, "prefix": [a],
               "depth": 5 - k if tier == "quick" else 6 - k}


NARROW = [[], [0], [1], [2], [2, 0]]


def run_narrow(case, st):
  cfg = {**BASE, **case["cfg"]}
  reftrack.lockstep(
      lambda: sm.SineTracker(**cfg).reset(),
      lambda: reftrack.RefTracker(**cfg), peaks_of,
      NARROW, case["prefix"], case["depth"], st)


def gen_narrow(tier):
  """much longer histories over five frame letters"""
  depth = 7 if tier == "quick" else 9
  for cfg in CFG[:4]:
    for p in itertools.product(NARROW, repeat=3):
      yield {"cfg": cfg, "prefix": list(p), "depth": depth}


# --- Minimum durations ----------------------------------------------------------
DURS = {(4, 2): [-1., 0., .5, 1., 1.25, 1.5, 2., 2.25],
        (8, 1): [.25, .3, .375, .5, .51],
        (44100, 441): [.02, .03, .035, .04, .049, .05],
        (48000, 500): [.02, .03, .05], (10, 3): [.3, .6, .9, 1., 1.2]}


def gen_dur(tier):
  for (fs, h), durs in DURS.items():
    for d in durs:
      for end in ("silence", "other", "active"):
        for n in range(1, 8):
          yield [fs, h, d, end, n]


def run_dur(case, st):
  """A track is kept exactly when it lasts long enough"""
  fs, h, d, end, n = case
  q = fractions.Fraction(d) * fs / h
  strict = fractions.Fraction(d * (fs / h)) == q
  near = not strict and abs(q - round(q)) < 1e-9
  t = sm.SineTracker(fs=fs, h=h, min_sine_dur=d, freq_dev_offset=2.,
                     freq_dev_slope=0.).reset()
  for i in range(n):
    t(*np.array([[64.], [-10. - i], [0.]]))
    long = n2_ok(i + 1, q)
    got = len(list(t.all_tracks_))
    vp.check(near and abs(i + 1 - q) < 1e-6 or got == long, "%r: %d tracks after %d "
             "frames", case, got, i + 1)
    st.transitions += 1
  if end != "active":
    t(*np.array([[96.], [-20.], [0.]] if end == "other" else [[], [], []]))
  got = [len(u["freq"]) for u in t.all_tracks_ if u["freq"][0] == 64]
  ended = [len(u["freq"]) for u in t.tracks_]
  if not (near and abs(n - q) < 1e-6):
    e = [n] * n2_ok(n, q)
    vp.check(got == e, "%r: tracks %r", case, got)
    vp.check(ended == (e if end != "active" else []), "%r: ended %r", case, ended)
  st.states += n + 1
  st.traces += 1
  return (n2_ok(n, q), end)


def n2_ok(n, q):
  """At least two frames and as many as the duration needs"""
  return n >= 2 and n >= q


if __name__ == "__main__":
  vp.main(
      "C01", [("wide", gen_wide, run, {"chunk": 1}),
              ("deep", gen_deep, run, {"chunk": 2}),
              ("close", gen_close, run_close, {"chunk": 1}),
              ("narrow", gen_narrow, run_narrow, {"chunk": 4}),
              ("durations", gen_dur, run_dur)],
      level="model_checking",
      rule="every sequence of peak frames over a frequency grid with every "
      "loudness order; the real tracker and a list-based reference model take "
      "each frame in lock step and their visible tracks are compared after "
      "every frame; states = (real, model) pairs reached",
      bounds={
          "quick": "3 frames of <=3 of 4 grid peaks x 6 configurations; 4 "
                   "frames of <=2 peaks; 7 frames over 5 letters x 4; 3 "
                   "frames of 2 and 2 of 3 peaks as close as 1e-6 Hz and dB; 27 "
                   "minimum durations x tracks of 1 to 7 frames",
          "thorough": "3 frames of <=4 peaks; 5 frames of <=2 peaks; 9 frames "
                      "over 5 letters x 4 configurations"
      },
      assumptions=["peak magnitudes within a frame are distinct",
                   "peak frequencies come from two 4-point dyadic grids"])

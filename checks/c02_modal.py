"""C02: acceptance, merging and stripping of modal tracks"""
import itertools

import numpy as np

import reftrack
import vp
from sample.sms import mm

BASE = dict(fs=4, h=2, min_sine_dur=0.0, freq_dev_offset=2.0,
            freq_dev_slope=0.0625, max_n_sines=100)
# name -> (frequency, magnitude offset, slope in dB per frame)
P = {
    "a": (64.0, 0.0, -2.01731),
    "b": (66.0, -1.0, -2.50877),
    "c": (72.0, -3.0, -2.00913),
    "r": (64.0, -40.0371, 2.03117),
    "k": (64.0, -8.0, 0.0),
    "h": (64.0, -7.7, -0.13),
    "s": (66.0, -30.0, -1.01291),
    "z": (96.0, -5.0, -0.5117),
}
SETS = {
    "overlap": ["", "a", "b", "az"],
    "merge": ["", "a", "b", "c"],
    "slope": ["", "a", "r", "h"],
    "thresh": ["", "a", "s", "sz"],
    "two": ["", "a", "ac", "ca"],
}
CFG = [
    ("merge", {}),
    ("merge", {"merge_strategy": "single"}),
    ("overlap", {}),
    ("overlap", {"merge_strategy": "single", "strip_t": 0.75}),
    ("slope", {}),
    ("slope", {"reverse": True}),
    ("thresh", {"peak_threshold": -30.5}),
    ("thresh", {"peak_threshold": -30.5, "reverse": True}),
    ("merge", {"frequency_bounds": (64.75, None)}),
    ("merge", {"frequency_bounds": (None, 66.5), "strip_t": 0.0}),
    ("merge", {"reverse": True, "strip_t": 1.25, "min_sine_dur": 1.25}),
    ("two", {"min_sine_dur": 1.25}),
    ("two", {"merge_strategy": "single", "max_n_sines": 1}),
    ("two", {"merge_strategy": "single", "strip_t": float("inf")}),
]


def peaks_of(letter, frame):
  r = []
  for i, c in enumerate(letter):
    f, m, k = P[c]
    r.append((f, m + k * frame - 0.125 * i, f / 128 + frame))
  return sorted(r)


def run(case, st):
  cfg = {**BASE, **case["cfg"]}
  if "frequency_bounds" in cfg:
    cfg["frequency_bounds"] = tuple(cfg["frequency_bounds"])
  def pk(letter, frame):
    if cfg.get("reverse"):
      # the audio is reversed: decaying partials grow from frame to frame
      return peaks_of(letter, 12 - frame)
    return peaks_of(letter, frame)

  reftrack.lockstep(lambda: mm.ModalTracker(**cfg).reset(),
                    lambda: reftrack.RefTracker(modal=True, **cfg), pk,
                    SETS[case["letters"]], case["prefix"], case["depth"], st)


def gen(tier):
  depth = 7 if tier == "quick" else 9
  for name, cfg in CFG:
    for p in itertools.product(SETS[name], repeat=3):
      yield {"cfg": cfg, "letters": name, "prefix": list(p), "depth": depth}


# two-letter alphabets reach double and triple merges
LONG = [(["", "a"], {}), (["", "k"], {}),
        (["", "k"], {"reverse": True, "strip_t": 2.0}),
        (["", "a"], {"strip_t": 1.75, "reverse": True}),
        (["", "c"], {"merge_strategy": "single", "min_sine_dur": 1.25}),
        (["a", "c"], {"freq_dev_offset": 8.25, "freq_dev_slope": -0.03125})]


def run_long(case, st):
  letters, cfg = LONG[case["i"]]
  cfg = {**BASE, **cfg}

  def pk(letter, frame):
    return peaks_of(letter, 16 - frame if cfg.get("reverse") else frame)

  reftrack.lockstep(lambda: mm.ModalTracker(**cfg).reset(),
                    lambda: reftrack.RefTracker(modal=True, **cfg), pk,
                    letters, case["prefix"], case["depth"], st)


def gen_long(tier):
  depth = 12 if tier == "quick" else 15
  for i in range(len(LONG)):
    for p in itertools.product(LONG[i][0], repeat=5):
      yield {"i": i, "prefix": list(p), "depth": depth}


# --- Choice of the strategy -------------------------------------------------------------
NAMES = ["single", "average", "Single", "mean", "", None, 0, "averag"]


def gen_strategy(tier):
  for i in range(len(NAMES)):
    for j in range(len(NAMES)):
      for gap in (0, 1, 3):
        yield [i, j, gap]


def run_strategy(case, st):
  """An unknown strategy is refused by name as soon as two tracks may be joined,
  whether set at construction or later, and a known one set later is used"""
  i, j, gap = case
  t = mm.ModalTracker(fs=100, h=10, min_sine_dur=0, merge_strategy=NAMES[i],
                      frequency_bounds=(None, None)).reset()
  t.set_params(merge_strategy=NAMES[j])

  def feed():
    k = 0
    for n in (3, -gap, 3, -1):
      for _ in range(abs(n)):
        p = [500. + 300 * (k >= 3 + gap and not gap)] if n > 0 else []
        t(np.array(p), np.array([-10. - k] * len(p)), np.zeros(len(p)))
        k += 1
    return [len(u["freq"]) for u in t.all_tracks_]

  if NAMES[j] in NAMES[:2]:
    vp.check(feed() == ([3, 3] if gap == 0 else [6 + gap]),
             "tracks with %r", NAMES[j])
    st.count("known")
  else:
    try:
      n = feed()
    except KeyError as e:
      vp.check("'single', 'average'" in str(e), "strategies named in %s", e)
    else:
      raise vp.Violation("strategy %r accepted: tracks %r" % (NAMES[j], n))
    st.count("refused")
  return repr((case, t.merge_strategy))


if __name__ == "__main__":
  vp.main(
      "C02", [("modal", gen, run, {"chunk": 2}),
              ("long", gen_long, run_long, {"chunk": 2}),
              ("strategy", gen_strategy, run_strategy, {"chunk": 32})],
      level="model_checking",
      rule="every sequence of peak frames over a 4-letter alphabet per "
      "configuration (merging strategies, reversed audio, frequency bounds, "
      "peak threshold, strip time, minimum length), real modal tracker and "
      "reference model in lock step, visible tracks compared after each frame",
      bounds={
          "quick": "7 frames over 4 letters x 14 configurations; 12 frames "
                   "over 2 letters x 6",
          "thorough": "9 frames over 4 letters; 15 frames over 2 letters"
      },
      assumptions=["magnitudes within a frame are distinct",
                   "no two merge candidates are exactly equidistant"])

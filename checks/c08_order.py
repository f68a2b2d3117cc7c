"""C08: ordering, truncation and export of modes"""
import itertools
import json
import math

import numpy as np
import vp
from sample import SAMPLE
from sample.beatsdrop.sample import SAMPLEBeatsDROP

# (frequency, decay, amplitude): orders by each feature and by energy differ,
# with ties of single features and of energy
MODES = [(100.0, 1.0, .5), (200.0, .5, .5), (50.0, 2.0, .25), (400.0, .25, 1.0),
         (100.0, 1.0, .5), (25.0, .125, 0.0),
         (4321.123456789, .0123456789012, 1.23456e-11)]
ORDERS = ("energies", "freqs", "decays", "amps")
FEATURE = {
    "freqs": lambda m: m[0],
    "decays": lambda m: m[1],
    "amps": lambda m: m[2],
    "energies": lambda m: m[1] * m[2]**2 / 4,
}


def model(modes, cls=SAMPLE, phases=None, **kw):
  m = cls(**kw)
  rows = [list(c) for c in zip(*modes)] or [[], [], []]
  if cls is SAMPLEBeatsDROP:
    rows.append(list(phases))
  m.param_matrix_ = np.array(rows, dtype=float)
  return m


def check_order(m, modes, order, reverse):
  """The order is a permutation sorted by the feature"""
  i = list(m.mode_argsort_(order=order, reverse=reverse))
  vp.check(sorted(i) == list(range(len(modes))), "order %r is not a "
           "permutation of the modes: %r", order, i)
  v = [FEATURE[order](modes[j]) for j in i]
  vp.check(v == sorted(v, reverse=reverse), "modes %r sorted by %s "
           "(reverse=%r): %r", modes, order, reverse, v)
  return i


def gen(tier):
  top = 3 if tier == "quick" else 4
  for n in range(top + 1):
    for modes in itertools.product(range(len(MODES)), repeat=n):
      yield modes


def ref_synth(t, modes, phases):
  return [
      sum(a * math.exp(-2 * x / d) * math.cos(2 * math.pi * f * x + p)
          for (f, d, a), p in zip(modes, phases))
      for x in t
  ]


T = [0.0, .001, .25, 1.0]


def run(case, st):
  modes = [MODES[i] for i in case]
  n = len(modes)
  phases = [.3 + i for i in range(n)]
  for max_n in (None, 0, 1, 2, n, n + 3):
    for cls in (SAMPLE, SAMPLEBeatsDROP):
      for order, reverse in itertools.product(ORDERS, (True, False)):
        m = model(modes, cls, phases, max_n_modes=max_n)
        before = m.param_matrix_.copy()
        i = check_order(m, modes, order, reverse)
        # export
        for d in (m.sdt_params_(order=order, reverse=reverse),
                  json.loads(json.dumps(
                      m.sdt_params_(order=order, reverse=reverse)))):
          vp.check(d["nModes"] == n and d["nPickups"] == 1 and
                   len(d["gains"]) == 1, "export of %d modes: %r", n, d)
          vp.check(d["activeModes"] == (n if max_n is None else min(n, max_n)),
                   "active modes %r with limit %r of %d", d["activeModes"],
                   max_n, n)
          got = list(zip(d["freqs"], d["decays"], d["gains"][0]))
          vp.check(got == [modes[j] for j in i],
                   "exported modes %r are not the model's %r in order %r", got,
                   modes, i)
          vp.check(len(d["weights"]) == n and
                   (n == 0 or math.isclose(sum(d["weights"]), 1)),
                   "weights %r", d["weights"])
        # resynthesis
        for n_modes in (None, 0, 1, n, n + 1):
          k = n_modes if n_modes is not None else (n if max_n is None else
                                                   max_n)
          for ph in (None, "none", "list", "array"):
            kw = {}
            if ph == "array":
              kw["phases"] = np.array(phases)
              p = phases
            elif ph == "list":
              kw["phases"] = list(phases)
              p = phases
            elif ph == "none":
              kw["phases"] = None
              p = [0.0] * n
            else:
              p = phases if cls is SAMPLEBeatsDROP else [0.0] * n
            y = m.predict(np.array(T), n_modes=n_modes, order=order,
                          reverse=reverse, **kw)
            s = i[:k]
            vp.check_close(
                np.reshape(y, -1),
                ref_synth(T, [modes[j] for j in s], [p[j] for j in s]),
                "synthesis of modes %r (limit %r, n_modes %r, phases %r)" %
                (s, max_n, n_modes, ph), 1e-9, 1e-9)
            if kw.get("phases") is not None:
              vp.check(list(kw["phases"]) == phases, "phases were modified")
            st.states += 1
        vp.check(np.array_equal(before, m.param_matrix_),
                 "reading results changed the parameters")
        st.outcome((order, reverse, tuple(i)))
      # defaults
      m = model(modes, cls, phases, max_n_modes=max_n)
      vp.check(m.mode_argsort_() == m.mode_argsort_("energies", True) and
               m.sdt_params_() == m.sdt_params_("energies", True),
               "default order")
  return case


# --- Assigned parameters -------------------------------------------------------
def gen_set(tier):
  for ops in itertools.product(
      itertools.product(("freqs_", "decays_", "amps_"), (0, 1)), repeat=3):
    yield ops


def run_set(case, st):
  """Parameters assigned by the user are used by everything"""
  modes = [list(m) for m in (MODES[0], MODES[2], MODES[3])]
  m = model(modes)
  vals = {"freqs_": [[1., 2., 3.], [30., 20., 10.]],
          "decays_": [[.5, .25, 1.], [1., 1., 2.]],
          "amps_": [[.1, .4, .2], [.9, .3, 1.]]}
  for k, v in case:
    v = vals[k][v]
    setattr(m, k, np.array(v) if v[0] < 1 else v)
    for md, x in zip(modes, v):
      md[["freqs_", "decays_", "amps_"].index(k)] = x
    vp.check_close(m.energies_, [FEATURE["energies"](x) for x in modes],
                   "energies after assigning %s" % k)
    for order, reverse in itertools.product(ORDERS, (True, False)):
      i = check_order(m, modes, order, reverse)
      d = m.sdt_params_(order, reverse)
      vp.check(list(zip(d["freqs"], d["decays"], d["gains"][0])) == [
          tuple(modes[j]) for j in i], "export after assigning %s", k)
    vp.check_close(m.predict(np.array(T)), ref_synth(T, modes, [0] * 3),
                   "synthesis after assigning %s" % k, 1e-9, 1e-9)
    st.transitions += 1
    st.states += 1
  st.traces += 1
  return repr(modes)


# --- Many modes ----------------------------------------------------------------
def gen_many(tier):
  for n in (7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200) + (
      () if tier == "quick" else (255, 256, 257, 511, 512, 513, 1000, 1024)):
    for k in (1, 7, 11):
      for style in ("spread", "tiny", "near"):
        yield [n, k, style]


def run_many(case, st):
  """Sizes around the powers of two"""
  n, k, style = case
  modes = [(50 + (i * k * 37 % 1009) / 3, (1 + i * k % 17) / 7,
            ((i * k * 5) % 13) / 13e3) for i in range(n)]
  if style == "tiny":  # very weak
    modes = [(f, d, a * 1e-9) for f, d, a in modes]
  elif style == "near":  # energies, decays and frequencies almost equal
    modes = [(50 + f * 1e-9, .5 + d * 1e-9, .25 + a * 1e-7)
             for f, d, a in modes]
  for cls in (SAMPLE, SAMPLEBeatsDROP):
    ph = [.1 * i for i in range(n)]
    m = model(modes, cls, ph)
    for order, reverse in itertools.product(ORDERS, (True, False)):
      i = check_order(m, modes, order, reverse)
      d = m.sdt_params_(order=order, reverse=reverse)
      vp.check(list(zip(d["freqs"], d["decays"], d["gains"][0])) ==
               [modes[j] for j in i] and d["nModes"] == d["activeModes"] ==
               len(d["weights"]) == n, "%r: exported modes (%s)", case, order)
      for lim in (None, 1, n // 2, n - 1, n, n + 1):
        s = i[:lim]
        vp.check_close(
            np.reshape(m.predict(np.array(T), n_modes=lim, order=order,
                                 reverse=reverse), -1),
            ref_synth(T, [modes[j] for j in s],
                      [ph[j] if cls is SAMPLEBeatsDROP else 0. for j in s]),
            "%r: synthesis of %r modes" % (case, lim), 1e-9,
            1e-18 if style == "tiny" else 1e-9)
        st.states += 1
  return n


if __name__ == "__main__":
  vp.main(
      "C08", [("modes", gen, run, {"chunk": 4}),
              ("assign", gen_set, run_set, {"chunk": 16}),
              ("many", gen_many, run_many, {"chunk": 1})],
      level="exploration",
      rule="every tuple of modes over an alphabet with ties, every order, "
      "direction, limit and number of modes: exported and synthesized modes "
      "are compared with the modes of the model; every sequence of three "
      "parameter assignments",
      bounds={
          "quick": "<=3 of 7 modes, 135 larger numbers of modes up to 200, "
                   "4 orders x 2 directions x 6 limits x 5 "
                   "numbers of modes x 4 ways of giving phases",
          "thorough": "<=4 modes"
      },
      assumptions=["the order of modes with equal features is free"])

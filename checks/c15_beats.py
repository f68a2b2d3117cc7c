"""C15: beats are decided and laid out as documented"""
import itertools
import math

import numpy as np
import vp
from c04_params import LineThrough, ScriptedModel, make_track
from sample.beatsdrop import decision, regression
from sample.beatsdrop import sample as bds
from sample.sample import additive_synth
from sklearn import base

EPS = float(np.finfo(float).eps)
GOT = []


class Scripted(base.BaseEstimator):
  """Beat regression with scripted results, keyed by the mean frequency"""
  script = {}

  def __init__(self, fs=1):
    self.fs = fs

  def fit(self, t, a, f, **_):
    GOT.append((np.array(t), np.array(a), np.array(f), self.fs, id(self)))
    self.params_ = tuple(type(self).script[round(float(np.mean(f)))])
    return self


# --- Parameter matrix ------------------------------------------------------------
# a0, a1, f0, f1, d0, d1, p0, p1 and whether these are two distinct partials
BEATS = {
    "beat": ((1., .5, 100., 103., .5, .25, .1, -.2), True),
    "rev": ((.25, 2., 110., 90., 1., .75, -1., 2.), True),
    "same": ((1., .5, 100., 100., .5, .25, .1, -.2), False),
    "soft0": ((0., .5, 100., 103., .5, .25, .1, -.2), False),
    "soft1": ((1., 0., 100., 103., .5, .25, .1, -.2), False),
    "nan": ((1., .5, 100., 103., .5, math.nan, .1, -.2), True),
    "inf": ((1., .5, 100., 103., math.inf, .25, .1, -.2), True),
    "badphase": ((1., .5, 100., 103., .5, .25, math.nan, -.2), True),
}


def gen(tier):
  top = 3 if tier == "quick" else 4
  for n in range(top + 1):
    for c in itertools.product(BEATS, repeat=n):
      for slope in ("d", "f"):
        yield [list(c), slope]


def run(case, st):
  kinds, slope = case
  n = len(kinds)
  for save, dec in itertools.product((False, True), ("default", "never")):
    script = [
        make_track(i, [1, 0, 1, 1] if i % 2 else [1, 1], slope, 100. *
                   (i + 1), False) for i in range(n)
    ]
    ScriptedModel.script = script
    means = [
        round(float(np.nanmean(np.array(t["freq"], dtype=float))))
        for t in script
    ]
    Scripted.script = {
        m: [v + 1000 * (i + 1) if j in (2, 3) else v
            for j, v in enumerate(BEATS[k][0])]
        for i, (m, k) in enumerate(zip(means, kinds))
    }
    del GOT[:]
    d = decision.AlmostNotABeatDecisor if dec == "default" else (
        decision.BeatDecisor)
    m = bds.SAMPLEBeatsDROP(
        beatsdrop=Scripted(),
        beat_decisor=d(intermediate__save=save),
        sinusoidal=ScriptedModel(w=np.ones(64), n=128, tracker__fs=1000,
                                 tracker__h=50, tracker__reverse=False),
        regressor=LineThrough(),
        regressor_k="slope",
        regressor_q="level")
    m.fit(np.zeros(1000))
    # what the beat models were given
    vp.check(len(GOT) == n, "%d beat models for %d tracks", len(GOT), n)
    vp.check(len({g[-1] for g in GOT} | {id(m.beatsdrop)}) <= n + 1 and
             all(g[-1] != id(m.beatsdrop) for g in GOT),
             "the beat model of the user was fitted")
    cols, beats, tests = [], [], []
    for i, (k, t) in enumerate(zip(kinds, script)):
      ok = [not math.isnan(v) for v in t["mag"]]
      tt = [((j + i) * 50) / 1000 + .5 * 64 / 1000
            for j, o in enumerate(ok) if o]
      mag = [v + 20 * math.log10(2) for v, o in zip(t["mag"], ok) if o]
      fr = [v for v, o in zip(t["freq"], ok) if o]
      vp.check_close(GOT[i][0], tt, "instants of track %d" % i)
      vp.check_close(GOT[i][1], mag, "magnitudes of track %d" % i)
      vp.check_close(GOT[i][2], fr, "frequencies of track %d" % i)
      vp.check(GOT[i][3] == 1000, "sample frequency %s", GOT[i][3])
      a0, a1, f0, f1, d0, d1, p0, p1 = Scripted.script[means[i]]
      b = BEATS[k][1] and dec == "default"
      beats.append(b)
      tests.append([abs(f0 - f1), abs(a0), abs(a1)])
      if b:
        cols += [(f0, d0, a0, p0), (f1, d1, a1, p1)]
      else:
        s = (mag[-1] - mag[0]) / (tt[-1] - tt[0])
        q = mag[0] - s * tt[0]
        cols.append((sum(fr) / len(fr), -40 * math.log10(math.e) / s if s else
                     math.inf, 10**(q / 20), 0.))
    good = [c for c in cols if all(math.isfinite(v) for v in c)]
    if slope == "f" and dec == "never":
      good = []
    e = np.array(good).T if good else np.empty((4, 0))
    if slope != "f":
      vp.check_close(m.param_matrix_, e, "parameters of %r" % kinds, 1e-9)
    else:
      # a constant magnitude never decays: only beats are left
      vp.check_close(m.param_matrix_,
                     np.array([c for c in good if c[3] != 0.]).T if any(
                         c[3] != 0. for c in good) else np.empty((4, 0)),
                     "parameters of %r" % kinds, 1e-9)
    vp.check_close(m.phases_, m.param_matrix_[3], "phases")
    store = m.beat_decisor.intermediate
    if save and n:
      vp.check([bool(v) for v in store["decision"]] == beats,
               "decisions %r for %r", store["decision"], kinds)
      if dec == "default":
        vp.check_close(np.array(store["test"]), np.array(tests),
                       "test statistics")
    else:
      vp.check(store.get_state() == {}, "decisions stored: %r",
               store.get_state())
    # resynthesis uses the phases of the beats
    x = np.arange(5) / 1000
    p = m.param_matrix_
    if p.shape[1]:
      vp.check_close(m.predict(x), additive_synth(x, p[0], p[1], p[2],
                                                  phases=p[3]), "audio")
    st.outcome((kinds, dec, np.round(p, 6).tolist()))
  return None


# --- Decision ----------------------------------------------------------------------
VALS = [0., EPS / 2, EPS, 2 * EPS, 1e-6, 1., -1., -EPS / 2, math.nan]
THS = [0, .25, 1, 3, 1e12]


def gen_dec(tier):
  yield from ([list(c), t] for c in itertools.product(range(len(VALS)), repeat=3)
              for t in THS)


class Result:

  def __init__(self, params):
    self.params_ = params


def run_dec(case, st):
  (i, j, k), th = case
  a0, a1, df = VALS[i], VALS[j], VALS[k]
  d = decision.AlmostNotABeatDecisor(th=th, intermediate__save=True)
  p = (a0, a1, df, 0., 2., 3., 4., 5.)
  e = all(abs(v) > th * EPS for v in (a0, a1, df))
  single = (7., 8., 9.)
  for idx in (0, 2):
    kw = dict(i=idx, t=None, track=None, beatsdrop=Result(p), params=single)
    r = d.decide_beat(**kw)
    vp.check(bool(r) == e, "decision %r for amplitudes %r, %r and difference "
             "%r with threshold %r", r, a0, a1, df, th)
    out = [tuple(c) for c in d.track_params(**kw)]
    exp = [(df, 2., a0, 4.), (0., 3., a1, 5.)] if e else [(7., 8., 9., 0)]
    vp.check(repr(np.array(out, dtype=float).tolist()) == repr(
        np.array(exp, dtype=float).tolist()), "columns %r instead of %r", out,
             exp)
    s = d.intermediate["decision"]
    vp.check(len(s) == idx + 1 and bool(s[idx]) == e, "stored decisions %r", s)
    vp.check(all(v is None for v in s[1:idx]), "stored decisions %r", s)
    b = decision.BeatDecisor()
    vp.check(not b.decide_beat(**kw), "the base class never decides for beats")
    vp.check([tuple(c) for c in b.track_params(**kw)] == [(7., 8., 9., 0)],
             "columns")
  return (case, e)


# --- Order of the tracks -------------------------------------------------------------
def gen_ord(tier):
  top = 4 if tier == "quick" else 5
  for n in range(1, top + 1):
    for perm in itertools.permutations(range(n)):
      for dec in itertools.product((0, 1), repeat=n):
        yield [list(perm), list(dec)]


def run_ord(case, st):
  """The decision for each track is stored in its place, whatever the order"""
  perm, dec = case
  d = decision.AlmostNotABeatDecisor(intermediate__save=True)
  p = [(1., float(b), 5., 6., 2., 3., 4., 5.) for b in dec]
  done = {}
  for i in perm + perm[:1]:
    out = d.track_params(i, None, None, Result(p[i]), (7., 8., 9.))
    vp.check(len(tuple(out)) == 1 + dec[i], "columns of track %d", i)
    done[i] = bool(dec[i])
    for k, e in (("decision", lambda i: done[i]),
                 ("test", lambda i: [1., 1., float(dec[i])])):
      s = d.intermediate[k]
      vp.check(len(s) == max(done) + 1, "%s: %d values", k, len(s))
      for j, v in enumerate(s):
        if j not in done:
          vp.check(v is None, "%s of track %d, not analysed: %r", k, j, v)
        elif k == "decision":
          vp.check(bool(v) == e(j), "decision of track %d: %r", j, v)
        else:
          vp.check_close(np.sort(v), np.sort(e(j)), "test of track %d" % j)
    st.transitions += 1
  st.traces += 1
  return (perm, dec)


# --- Sorting -------------------------------------------------------------------------
def gen_sort(tier):
  v = [.5, 1., 2.]
  yield from ([list(c)] for c in itertools.product(v, repeat=4))


def run_sort(case, st):
  a0, a1, d0, d1 = case[0]
  p = (a0, a1, 10., 20., d0, d1, .3, .4)
  sw = (a1, a0, 20., 10., d1, d0, .4, .3)
  for form in (tuple, list, np.array):
    for desc in (None, False, True):
      for key in (None, "amps", "freqs"):
        kw = {} if desc is None else {"descending": desc}
        if key == "amps":
          kw["key"] = lambda q: q[:2]
          e = (a0, a1)
        elif key == "freqs":
          kw["key"] = lambda q: q[2:4]
          e = (10., 20.)
        else:
          e = (d0 * a0 * a0 / 4, d1 * a1 * a1 / 4)
        q = tuple(float(x) for x in regression.sort_params(form(p), **kw))
        vp.check(q in (p, sw), "the partials were mixed: %r from %r", q, p)
        k = e if q == p else e[::-1]
        if q == p == sw:
          k = e
        vp.check(k[0] >= k[1] if desc else k[0] <= k[1],
                 "order of energies %r (descending=%r)", k, desc)
  return (case, q)


if __name__ == "__main__":
  vp.main(
      "C15", [("columns", gen, run, {"chunk": 16}),
              ("decision", gen_dec, run_dec, {"chunk": 64}),
              ("order", gen_ord, run_ord, {"chunk": 64}),
              ("sorting", gen_sort, run_sort, {"chunk": 32})],
      level="exploration",
      rule="every tuple of track outcomes (beat, equal frequencies, silent "
      "partial, non-finite parameters) x storage x decision model through the "
      "real fit; every triple of decision values around the threshold; every "
      "parameter order",
      bounds={
          "quick": "up to 3 tracks",
          "thorough": "up to 4 tracks"
      },
      assumptions=["the beat regression of the fits is scripted"])

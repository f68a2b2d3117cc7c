"""C12: gammatone filters and cochleagrams"""
import copy
import itertools
import math
import pickle

import numpy as np
import sklearn.exceptions
import vp
from scipy import signal
from sample import psycho
from sample.utils import dsp

G = psycho.GammatoneFilter


def env(t, n, tc, b):
  u = t + tc
  return 0. if u < 0 else u**(n - 1) * math.exp(-2 * math.pi * b * u)


# --- Single filters --------------------------------------------------------------
FS = [20., 300., 1000.]
NS = [1, 2, 4]
BW = {"none": None, "num": 30., "call": lambda g: g.f / 10 + g.n}
TC = {"none": None, "zero": 0, "num": .01, "call": lambda g: g.n / 100}
PHI = {"none": None, "zero": 0, "num": 1., "call": lambda g: g.f / 100}
AMP = {"none": None, "num": 2.5, "call": lambda g: g.f / 1000}


def gen_filter(tier):
  yield from ([list(c)] for c in itertools.product(
      range(len(FS)), range(len(NS)), BW, TC, PHI, AMP, (False, True),
      ("init", "set")))


def run_filter(case, st):
  fi, ni, bw, tc, ph, am, norm, how = case[0]
  f, n = FS[fi], NS[ni]
  if how == "init":
    g = G(f=f,
          n=n,
          bandwidth=BW[bw],
          t_c=TC[tc],
          phi=PHI[ph],
          normalize=norm,
          a=AMP[am])
  else:  # attributes may be changed later
    g = G()
    g.f, g.n, g.normalize = f, n, norm
    g.bandwidth, g.t_c, g.phi, g.a = BW[bw], TC[tc], PHI[ph], AMP[am]
  b = {
      "none": 6.23e-6 * f * f + .09339 * f + 28.52,
      "num": 30.,
      "call": f / 10 + n
  }[bw]
  gd = (n - 1) / (2 * math.pi * b)
  lead = {"none": gd, "zero": 0., "num": .01, "call": n / 100}[tc]
  phi = {
      "none": -2 * math.pi * f * lead,
      "zero": 0.,
      "num": 1.,
      "call": f / 100
  }[ph]
  amp = {"none": 1., "num": 2.5, "call": f / 1000}[am]
  vp.check_close(g.bandwidth, b, "bandwidth")
  vp.check_close(g.t_c, lead, "leading time")
  vp.check_close(g.raw_group_delay, gd, "raw group delay")
  vp.check_close(g.group_delay, gd - lead, "group delay")
  vp.check_close(g.phi, phi, "phase")
  t = [-lead - .02, -.013, 0., .001, .0125, .04]
  e = np.array([env(u, n, lead, b) for u in t])
  w = np.array([2 * math.pi * f * u + phi for u in t])
  for an in (False, True):
    x = e * (np.exp(1j * w) if an else np.cos(w))
    for mk in (list, np.array):
      vp.check_close(g.wavefun(mk(t), analytic=an), x, "wave function", 1e-9,
                     1e-12)
      y = x * amp
      if norm:
        y = y / math.sqrt(sum(abs(x)**2))
      vp.check_close(g.ir(mk(t), analytic=an), y, "impulse response", 1e-9,
                     1e-12)
      out = np.full(len(t), 7, dtype=complex if an else float)
      r = g.ir(mk(t), analytic=an, out=out)
      vp.check(r is out, "output array not used")
      vp.check_close(out, y, "impulse response in the output array", 1e-9,
                     1e-12)
    # default time axis
    for fs in (200., 1000.):
      kw = {"initial_range": .1} if n == 1 else {}  # no default range
      size = g.ir_size(fs=fs, **kw)
      ti = [k / fs - lead for k in range(size)]
      x = np.array([
          env(u, n, lead, b) * (np.exp(1j * (2 * math.pi * f * u + phi))
                                if an else math.cos(2 * math.pi * f * u + phi))
          for u in ti
      ])
      y = x * amp
      if norm:
        y = y / (math.sqrt(sum(abs(x)**2)) or 1)
      if size and np.isfinite(y).all():
        vp.check_close(g.ir(fs=fs, analytic=an, **kw), y,
                       "impulse response on the default axis", 1e-7, 1e-9)
  vp.check_raises(ValueError, g.ir, "impulse response without time axis")
  # group delay as a parameter
  g.group_delay = .003
  vp.check_close(g.group_delay, .003, "group delay set", 1e-9, 1e-12)
  vp.check_close(g.t_c, gd - .003, "leading time after setting the delay",
                 1e-9, 1e-12)
  return (round(b, 6), round(lead, 6), round(phi, 6), amp, norm, n)


def gen_t60(tier):
  fs = [5., 20., 300., 5000.] + ([63., 100., 1000., 1e4]
                                 if tier != "quick" else [])
  for f in fs:
    for n in range(2, 6 if tier == "quick" else 9):
      for bw in BW:
        for tc in TC:
          for floor in (-20, -60, -90):
            for rng in (None, 1e-4, 10.):
              yield [f, n, bw, tc, floor, rng]


def run_t60(case, st):
  """The t60 is where the envelope decays by the given amount, after its peak"""
  f, n, bw, tc, floor, rng = case
  g = G(f=f, n=n, bandwidth=BW[bw], t_c=TC[tc])
  for steps in (1, 32):
    try:
      t = g.t60(floor=floor, initial_range=rng, steps=steps)
    except (ValueError, sklearn.exceptions.ConvergenceWarning) as e:
      if isinstance(e, ValueError):
        vp.check(rng == 1e-4, "range not found: %r", e)
      elif rng is None and steps == 32:
        raise vp.Violation("no convergence: %r" % e)
      st.count("refused")
      continue
    lead, b, gd = g.t_c, g.bandwidth, g.group_delay
    p = env(gd, n, lead, b)
    a = env(t, n, lead, b)
    vp.check(t > gd, "t60 %s before the peak %s", t, gd)
    d = 20 * math.log10(a / p)
    vp.check(abs(d - floor) <= 1.0001e-3, "envelope at t60 is at %s dB", d)
    st.count("found")
  t = g.t60(floor=floor, warn_th=None)
  d = 20 * math.log10(env(t, n, g.t_c, g.bandwidth) /
                      env(g.group_delay, n, g.t_c, g.bandwidth))
  vp.check(abs(d - floor) < .01, "envelope at t60 is at %s dB", d)
  # impulse response size: whole number of quarter periods around the t60
  for s in (1000., 44100.):
    size = g.ir_size(fs=s)
    t60 = (size / s - g.t_c)
    tt = g.t60()
    vp.check(tt - 1 / s - 1e-9 <= t60 <= tt + 1 / (4 * f) + 1 / s,
             "impulse response of %d samples at %s Hz ends at %s, t60 is %s",
             size, s, t60, tt)
  return repr((case, round(t, 9)))


def gen_range(tier):
  for f in (20., 300.):
    for n in (2, 4):
      for k in range(1, 9):
        for i in range(4):
          for floor in (-20, -60):
            yield [f, n, k, i, floor]


def run_range(case, st):
  """The search range is doubled for the given number of times: the t60 is found
  if and only if the ranges tried reach it"""
  f, n, k, i, floor = case
  g = G(f=f, n=n)
  t = g.t60(floor=floor)
  # ranges tried: r, 2r, 4r..., one after the other
  reach = (t - g.group_delay) / (2**k - 1)
  rng = reach * (.3, .9, 1.1, 3.)[i]
  try:
    u = g.t60(floor=floor, initial_range=rng, n_starts=k)
  except ValueError as e:
    vp.check(rng < reach, "not found in %d ranges from %s: %r", k, rng, e)
    vp.check(f" {k} " in str(e), "number of ranges in %r", str(e))
    st.count("not reached")
    return repr(case)
  vp.check(rng > reach, "t60 %s found in %d ranges from %s", u, k, rng)
  vp.check_close(u, t, "t60 from another range", 1e-3, 1e-12)
  st.count("reached")
  return repr(case)


# --- Zero crossing search --------------------------------------------------------
def gen_zero(tier):
  for m in (1, 3, 8):
    for k in range(m + 1):
      for steps in range(0, 12 if tier == "quick" else 24):
        for up in (False, True):
          for sw in (False, True):
            for kind in ("step", "ramp"):
              yield [m, k, steps, up, sw, kind]


def run_zero(case, st):
  """Bisection gets within (width / 2^(steps + 1)) of the crossing"""
  m, k, steps, up, sw, kind = case
  lo, hi = -1., 7.
  root = lo + (hi - lo) * (k + .3) / (m + 1)
  calls = []

  def f(x):
    calls.append(x)
    y = (x - root) if kind == "ramp" else (1. if x > root else -1.)
    return y if up else -y

  a = dsp.dychotomic_zero_crossing(f,
                                   *((hi, lo) if sw else (lo, hi)),
                                   steps=steps)
  vp.check(abs(a - root) <= (hi - lo) / 2**(steps + 1) + 1e-12,
           "found %s instead of %s after %d steps", a, root, steps)
  vp.check(all(lo <= x <= hi for x in calls), "evaluated outside the range")
  for x in (lo, hi):
    vp.check_raises(
        ValueError, lambda x=x: dsp.dychotomic_zero_crossing(
            lambda t: t - 10, lo, x, steps=steps), "no crossing")
  return (round(a, 9), steps)


# --- Banks and cochleagrams --------------------------------------------------------
BANKS = {
    "one": dict(freqs=[50.]),
    "two": dict(freqs=[40., 160.]),
    "rev": dict(freqs=[160., 40.]),
    "three": dict(freqs=[30., 90., 200.], n=2),
    "causal": dict(freqs=[40., 90., 160.], t_c=0),
    "lead": dict(freqs=[40., 160.], t_c=lambda g: g.n / g.f / 3),
    # the second filter is aligned by many samples
    "apart": dict(freqs=[20., 160.], t_c=lambda g: .08 if g.f < 99 else .004),
    "wide": dict(freqs=[60., 160.], bandwidth=80., normalize=True),
    "norm": dict(freqs=[40., 160.], normalize=True, a=2.),
    "auto": dict(n_filters=3, flim=(30., 200.)),
    "tiny": dict(freqs=[100.]),  # one sample at 30 Hz
}
SIGNALS = {
    "one": [1.],
    "impulse": [0., 0., 1., 0.],
    "end": [0., 0., 0., 0., 0., 1.],
    "mixed": [1., -2., 0., 3., 5., -1., .5],
    "int": [1, -2, 0, 3, 4],
    "single": [1., -2., 0., 3.],
    "complex": [1., 1j, -2 + 1j],
    "long": [((7 * k * k + 3 * k) % 11) - 5. for k in range(40)],
}


def sig(name):
  return np.array(SIGNALS[name],
                  dtype=np.float32 if name == "single" else None)


def gen_bank(tier):
  for b in BANKS:
    if b == "tiny":
      continue
    for fs in (400., 500.) if tier == "quick" else (400., 441., 500., 650.):
      for an in (False, True):
        for s in SIGNALS:
          yield [b, fs, an, s]
  for an in (False, True):
    for s in SIGNALS:
      yield ["tiny", 30., an, s]


def full(x, bank, irs, leads):
  """Aligned convolutions by definition"""
  n = max(len(ir) + max(leads) - l for ir, l in zip(irs, leads))
  out = np.zeros((len(irs), len(x) + n - 1), dtype=complex)
  for i, (ir, l) in enumerate(zip(irs, leads)):
    for k, v in enumerate(x):
      for j, h in enumerate(ir):
        out[i, k + j + max(leads) - l] += v * h
  return out


def run_bank(case, st):
  b, fs, an, s = case
  bank = psycho.GammatoneFilterbank(**BANKS[b])
  pre = bank.precompute(fs=fs, analytic=an)
  x = sig(s)
  keep = x.copy()
  leads = [math.ceil(g.t_c * fs) for g in bank]
  irs = [
      np.array(
          g.ir(t=(np.arange(g.ir_size(fs=fs)) - l) / fs, analytic=an))
      for g, l in zip(bank, leads)
  ]
  vp.check(len(pre) == len(bank) == len(irs), "number of filters")
  vp.check_close(np.array(pre.freqs), np.array([g.f for g in bank]), "freqs")
  for p, q in zip(pre.irs, irs):
    vp.check_close(p, q, "precomputed impulse response")
  ref = full(x, bank, irs, leads)
  cplx = an or np.iscomplexobj(x)
  if not cplx:
    ref = ref.real
  tol = 1e-4 if s == "single" else 1e-8
  for m in (None, "overlap-add", "direct", "fft", "auto"):
    y = pre.convolve(x, method=m)
    vp.check(np.iscomplexobj(y) == cplx, "type %s", y.dtype)
    vp.check_close(y, ref, "convolution (method %s)" % m, tol, tol)
  top = ref.shape[1] + 3
  strides = [k for k in range(1, top + 1) if k <= 24 or k >= top - 8]
  for stride in strides:
    if np.iscomplexobj(x):
      vp.check_raises(ValueError, lambda: pre.convolve(x, stride=stride),
                      "strided convolution of a complex signal")
      continue
    y = pre.convolve(x, stride=stride)
    vp.check(np.iscomplexobj(y) == cplx, "type %s", y.dtype)
    vp.check_close(y, ref[:, ::stride], "strided convolution (%d)" % stride,
                   tol, tol)
    st.count("strided")
  vp.check_raises(ValueError,
                  lambda: pre.convolve(x, method="direct", stride=2),
                  "stride and method together")
  vp.check(np.array_equal(x, keep), "signal modified")
  for ir, q in zip(pre.irs, irs):
    vp.check(np.array_equal(ir, q), "impulse responses modified")
  return repr(np.round(ref, 5).tolist())


def gen_coch(tier):
  for b in BANKS:
    for s in ("mixed", "int", "long"):
      for an in (None, "input", "ir", "output"):
        for post in ("default", None, "abs", "half"):
          for given in ("args", "bank", "precomputed", "analytic"):
            for stride in (None, 1, 3, 7):
              yield [b, s, an, post, given, stride]


POST = {"abs": np.abs, "half": lambda c: c / 2}


def run_coch(case, st):
  b, s, an, post, given, stride = case
  fs = 400.
  bank = psycho.GammatoneFilterbank(**BANKS[b])
  x = sig(s)
  ir_an = an == "ir"
  kw = {"fs": fs}
  if given == "args":
    kw.update(BANKS[b])
  elif given == "bank":
    kw["filterbank"] = bank
  else:
    kw["filterbank"] = bank.precompute(fs=fs, analytic=given == "analytic")
    ir_an = given == "analytic"
    kw.pop("fs")
  if an is not None:
    kw["analytic"] = an
  if post != "default":
    kw["postprocessing"] = POST.get(post)
  if stride is not None:
    kw["stride"] = stride
  call = lambda: psycho.cochleagram(x, **kw)
  if given == "analytic" and an not in (None, "ir"):
    vp.check_raises(ValueError, call, "analytic bank and analytic " + an)
    return "refused"
  if given == "analytic":
    an = "ir"
  if an == "input" and stride is not None:
    vp.check_raises(ValueError, call, "stride and analytic input")
    return "refused"
  leads = [math.ceil(g.t_c * fs) for g in bank]
  irs = [
      g.ir(t=(np.arange(g.ir_size(fs=fs)) - l) / fs, analytic=ir_an)
      for g, l in zip(bank, leads)
  ]
  z = signal.hilbert(x) if an == "input" else x
  e = full(z, bank, irs, leads)[:, ::stride or 1]
  if not ir_an and an != "input":
    e = e.real
  if an == "output":
    e = signal.hilbert(e)
  if post == "default":
    if an is None:
      e = np.maximum(e, 0)
  elif post is not None:
    e = POST[post](e)
  c, f = call()
  vp.check_close(c, e, "cochleagram", 1e-7, 1e-8)
  vp.check_close(f, np.array([g.f for g in bank]), "center frequencies")
  if given in ("args", "bank") and stride is None:
    kw2 = {k: v for k, v in kw.items() if k in ("fs", "analytic",
                                                "postprocessing")}
    vp.check_close(bank.convolve(x, **kw2), e, "convolution with the bank",
                   1e-7, 1e-8)
  if given == "bank":
    kw.pop("fs")
    vp.check_raises(TypeError, lambda: psycho.cochleagram(x, **kw),
                    "no sample frequency")
  return repr(np.round(e, 5).tolist())


# --- Forms and sizes of the input --------------------------------------------------
FORMS = {
    "list": lambda x: x.tolist(),
    "tuple": lambda x: tuple(x.tolist()),
    "floats": lambda x: list(x),
    "view": lambda x: np.repeat(x, 2)[::2],
    "reversed": lambda x: x[::-1].copy()[::-1],
    "locked": lambda x: (x.setflags(write=False), x)[1],
    "int16": lambda x: x.astype(np.int16),
    "uint8": lambda x: np.abs(x).astype(np.uint8),
    "bool": lambda x: x > 0,
}


def gen_form(tier):
  for n in (5, 40, 1000, 5000) if tier == "quick" else (1, 5, 40, 999, 1000,
                                                        5000, 40000):
    for form in FORMS:
      for an in (None, "ir", "input", "output"):
        for stride in (None, 1, 7):
          if an != "input" or stride is None:
            yield [n, form, an, stride]


def run_form(case, st):
  """Every sequence of numbers gives the cochleagram of its values"""
  n, form, an, stride = case
  fs = 4000.
  x = np.array([((7 * k * k + 3 * k) % 11) - 5. for k in range(n)])
  x = FORMS[form](x)
  v = np.array(x, dtype=float)
  bank = psycho.GammatoneFilterbank(freqs=[200., 700.])
  leads = [math.ceil(g.t_c * fs) for g in bank]
  irs = [
      np.array(
          g.ir(t=(np.arange(g.ir_size(fs=fs)) - l) / fs, analytic=an == "ir"))
      for g, l in zip(bank, leads)
  ]
  z = signal.hilbert(v) if an == "input" else v
  m = max(len(ir) + max(leads) - l for ir, l in zip(irs, leads))
  e = np.zeros((len(irs), n + m - 1), dtype=complex)
  for i, (ir, l) in enumerate(zip(irs, leads)):
    y = np.convolve(z, ir)
    e[i, max(leads) - l:max(leads) - l + y.size] = y
  e = e[:, ::stride or 1]
  if an in (None, "output"):
    e = e.real
  if an is None:
    e = np.maximum(e, 0)
  elif an == "output":
    e = signal.hilbert(e)
  kw = {} if stride is None else {"stride": stride}
  c, f = psycho.cochleagram(x, fs=fs, filterbank=bank, analytic=an, **kw)
  vp.check_close(c, e, "cochleagram", 1e-7, 1e-7 * np.max(np.abs(e)))
  vp.check_close(f, [200., 700.], "center frequencies")
  vp.check(np.array_equal(np.array(x, dtype=float), v), "input modified")
  st.count(form)
  return (form, c.shape, round(float(np.sum(np.abs(c))), 4))


# --- Histories of one bank -------------------------------------------------------
HX = np.array([1., -2., 0., 3., 5., -1., .5])
HOPS = [("coch", 400., None), ("coch", 400., "ir"), ("coch", 500., None),
        ("conv", 400., "input"), ("conv", 500., "ir"), ("pre", 400., False),
        ("pre", 400., True), ("pre", 500., True), ("irs", 400., False),
        ("set", "f", 120.), ("set", "t_c", .004), ("set", "n", 3),
        ("set", "normalize", True)]
HSETS = {"two": lambda: psycho.GammatoneFilterbank(freqs=[40., 160.]),
         "auto": lambda: psycho.GammatoneFilterbank(n_filters=2,
                                                    flim=(60., 200.))}


def hop(bank, op):
  """Perform one operation, return its result"""
  k, fs, v = op
  if k == "coch":
    return psycho.cochleagram(HX, fs=fs, filterbank=bank, analytic=v)[0]
  if k == "conv":
    return bank.convolve(HX, fs=fs, analytic=v)
  if k == "pre":
    p = bank.precompute(fs=fs, analytic=v)
    return np.concatenate([np.array(i) for i in p.irs] + [p.convolve(HX)[0]])
  if k == "irs":
    return np.concatenate(
        [np.array(g.ir(fs=fs, analytic=v)) for g in bank])
  setattr(list(bank)[0], fs, v)
  return None


def gen_hist(tier):
  for b in HSETS:
    for d in (2, 3) if tier == "quick" else (2, 3, 4):
      for h in itertools.product(range(len(HOPS)), repeat=d):
        if HOPS[h[-1]][0] != "set" and (d < 4 or h[0] < h[1]):
          yield [b, list(h)]


FRESH = {}


def run_hist(case, st):
  """The last result of a history is that of a new bank with the same filters"""
  b, h = case
  bank = HSETS[b]()
  for i in h:
    r = hop(bank, HOPS[i])
  key = (b, tuple(i for i in h if HOPS[i][0] == "set"), h[-1])
  if key not in FRESH:
    new = HSETS[b]()
    for i in key[1]:
      hop(new, HOPS[i])
    FRESH[key] = hop(new, HOPS[h[-1]])
  e = FRESH[key]
  vp.check(np.iscomplexobj(r) == np.iscomplexobj(e),
           "history %s: type %s instead of %s", [HOPS[i] for i in h], r.dtype,
           e.dtype)
  vp.check_close(r, e, "last result of the history %s" %
                 [HOPS[i] for i in h], 1e-9, 1e-10)
  return (key, round(float(np.sum(np.abs(r))), 6))


# --- Strided convolution ---------------------------------------------------------
def gen_conv(tier):
  n = 5 if tier == "quick" else 7
  for nx in range(1, n + 1):
    for nk in range(1, nx + 1):
      for stride in range(1, n + 2):
        for pos in range(nx):
          for kc in (False, True):
            yield [nx, nk, stride, pos, kc]


def run_conv(case, st):
  """Linear in the signal: every impulse determines every signal"""
  nx, nk, stride, pos, kc = case
  for x in (np.eye(nx)[pos], np.arange(nx) * 1. + pos):
    k = np.arange(1, nk + 1) * ((1 - 2j) if kc else 1.)
    k[0] += 1
    e = np.array([
        sum(k[nk - 1 - j] * x[s + j] for j in range(nk))
        for s in range(0, nx - nk + 1, stride)
    ])
    f = dsp.strided_convolution_complex_kernel if kc else (
        dsp.strided_convolution)
    y = f(x, k, stride=stride)
    vp.check_close(np.reshape(y, -1), e, "strided convolution")
    if kc:
      out = np.full(e.size, 7 + 7j)
      vp.check(f(x, k, stride=stride, out=out) is out, "output")
    else:
      out = np.full((e.size, 1), 7.)
      f(x, k, stride=stride, out=out)
    vp.check_close(np.reshape(out, -1), e, "strided convolution, output array")
  return repr(e.tolist())


# --- The bank as a collection --------------------------------------------------------------
ATTRS = ["f", "n", "bandwidth", "t_c", "phi", "a", "group_delay", "normalize",
         "raw_group_delay", "nothing", "_filter", "ir_size_"]


def gen_items(tier):
  for n in range(1, 6 if tier == "quick" else 12):
    for how in ("freqs", "filters", "n_filters", "copy", "deepcopy", "pickle"):
      for a in range(len(ATTRS)):
        yield [n, how, a]


def run_items(case, st):
  """Filters of a bank, and their attributes, are those of each filter in order"""
  n, how, a = case
  fs = [110. * 2**i for i in range(n)]
  fl = [G(f=f, n=2 + i % 3, t_c=.01 * (i + 1)) for i, f in enumerate(fs)]
  if how == "freqs":
    b = psycho.GammatoneFilterbank(freqs=fs, n=3)
  elif how == "n_filters":
    b = psycho.GammatoneFilterbank(n_filters=n)
  else:
    b = psycho.GammatoneFilterbank(filters=iter(fl))
    b = {"copy": copy.copy, "deepcopy": copy.deepcopy,
         "pickle": lambda x: pickle.loads(pickle.dumps(x))
        }.get(how, lambda x: x)(b)
    for x, y in zip(b, fl):
      for k in ATTRS[:9]:
        vp.check(getattr(x, k) == getattr(y, k), "%s of a filter of the bank", k)
  vp.check(len(b) == n, "%d filters instead of %d", len(b), n)
  vp.check([b[i] for i in range(n)] == list(b) == [b[i - n] for i in range(n)],
           "items of the bank")
  vp.check(list(b[1:]) == list(b)[1:], "slice of the bank")
  vp.check_raises(IndexError, lambda: b[n], "filter out of the bank")
  k = ATTRS[a]
  if a < 9:
    v = getattr(b, k)
    vp.check(tuple(v) == tuple(getattr(x, k) for x in b), "%s of the bank", k)
    b[-1].t_c = .5  # values are those of now
    v = getattr(b, k)
    vp.check(tuple(v) == tuple(getattr(x, k) for x in b),
             "%s of the bank after a change", k)
  else:
    vp.check_raises(AttributeError, lambda: getattr(b, k), "attribute " + k)
    vp.check(not hasattr(b, k), "attribute %s", k)
  return repr(case)


if __name__ == "__main__":
  vp.main(
      "C12", [("filter", gen_filter, run_filter, {"chunk": 32}),
              ("t60", gen_t60, run_t60, {"chunk": 16}),
              ("range", gen_range, run_range, {"chunk": 32}),
              ("items", gen_items, run_items, {"chunk": 4}),
              ("zero crossing", gen_zero, run_zero, {"chunk": 64}),
              ("strided convolution", gen_conv, run_conv, {"chunk": 64}),
              ("bank", gen_bank, run_bank, {"chunk": 2}),
              ("cochleagram", gen_coch, run_coch, {"chunk": 8}),
              ("forms", gen_form, run_form, {"chunk": 16}),
              ("history", gen_hist, run_hist, {"chunk": 64})],
      level="exploration",
      rule="every combination of filter parameters, every bank x signal x "
      "stride x method x analytic mode x way of giving the bank, against "
      "convolutions computed term by term; every history of uses and changes "
      "of one bank against a new bank",
      bounds={
          "quick": "2 sample rates, every stride up to 24 and around the "
          "length of the output; every form of the input up to 5000 samples; "
          "histories of 2 and 3 operations of 13",
          "thorough": "4 sample rates, t60 of orders up to 8, inputs up to "
                      "40000 samples, histories of 4"
      },
      assumptions=["impulse responses of order 1 have no t60 search and are "
                   "checked on explicit time axes"])

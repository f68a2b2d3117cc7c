"""C10: array functions: values, shapes, output arrays and purity"""
import itertools
import math

import numpy as np
import vp
from sample import beatsdrop, hinge, psycho
from sample.sample import modal_energy
from sample.utils import dsp, np2pg

POS = [0.25, 1.0, 3.0, 100.0, 0.001]
ANY = [0.0, -1.0, 2.5, 100.0, -60.0]
FREQ = [0.0, 20.0, 1000.0, 440.5, 16000.0]
CPX = [0.5, 1j, -3 + 4j, 1.0]
log10 = math.log10


def _a(f):
  if f == 0:
    return 0.0
  return 12194**2 * f**4 / ((f**2 + 20.6**2) * math.sqrt(
      (f**2 + 107.7**2) * (f**2 + 737.9**2)) * (f**2 + 12194**2))


def _db(x):
  return -math.inf if x == 0 else 20 * log10(x)


def _env(t, n, tc, b):
  u = t + tc
  return 0.0 if u < 0 else u**(n - 1) * math.exp(-2 * math.pi * u * b)


_g = psycho.GammatoneFilter(f=1000.0, n=3)
_gb, _gt = _g.bandwidth, _g.t_c
_e = beatsdrop.ExponentialDecay(.5, 2.0)
# name: (function, scalar reference, values, rtol)
FUN = {
    "db2a": (dsp.db2a, lambda x: 10**(x / 20), ANY, 0),
    "a2db": (dsp.a2db, _db, POS + [0.0], 0),
    "a2db_floor": (lambda x, **k: dsp.a2db(x, floor=.5, **k),
                   lambda x: _db(max(x, .5)), POS + [0.0], 0),
    "a2db_floor_db": (lambda x, **k: dsp.a2db(x, floor=-6, floor_db=True, **k),
                      lambda x: max(_db(x), -6), POS + [0.0], 0),
    "complex2db": (dsp.complex2db, lambda x: _db(abs(x)), CPX + ANY, 0),
    "complex2db_floor": (lambda x, **k: dsp.complex2db(
        x, floor=-60, floor_db=True, **k),
                         lambda x: max(_db(abs(x)), -60), CPX + ANY, 0),
    "expi": (dsp.expi, lambda x: complex(math.cos(x), math.sin(x)), ANY, 0),
    "bin2f": (lambda x, **k: dsp.bin2f(x, nfft=64, fs=1000., **k),
              lambda x: x * 1000 / 64, [0, 1, 7, 32], 0),
    "modal_energy": (lambda x, **k: modal_energy(x, 2.0, **k),
                     lambda x: x * x / 2, ANY, 0),
    "hinge": (lambda x, **k: hinge.hinge_function(x, 2.0, -3.0, .5, **k),
              lambda x: -3 * min(x, 2.0) + .5, ANY, 0),
    "hinge_by_name": (lambda x, **kw: hinge.hinge_function(
        x, a=1.5, k=-.5, q=.25, **kw), lambda x: -.5 * min(x, 1.5) + .25, ANY,
                      0),
    "hwr": (psycho.hwr, lambda x: max(x, 0), ANY, 0),
    "hwr_th": (lambda x, **k: psycho.hwr(x, -1.5, **k), lambda x: max(x, -1.5),
               ANY, 0),
    "hwr_th_by_name": (lambda x, **k: psycho.hwr(x, th=.5, **k),
                       lambda x: max(x, .5), ANY, 0),
    "decay": (_e, lambda x: .5 * math.exp(-x), POS, 0),
    "decay_dt": (_e.dt, lambda x: -.5 * math.exp(-x), POS, 0),
    "semisum": (lambda x, **k: np2pg.semisum(x, 3, **k),
                lambda x: (x + 3) / 2, ANY, 0),
    "semidiff": (lambda x, **k: np2pg.semidiff(x, 3, **k),
                 lambda x: (x - 3) / 2, ANY, 0),
    "envelope": (_g.envelope, lambda t: _env(t, 3, _gt, _gb),
                 [-1.0, -_gt, 0.0, .001, .01, 2.0, -100.0], 0),
    "a_weighting": (psycho.a_weighting,
                    lambda f: _db(_a(f)) - _db(_a(1000.0)), FREQ, 1e-5),
    "a_weighting_linear": (lambda f, **k: psycho.a_weighting(f, db=False, **k),
                           _a, FREQ, 1e-5),
    "hz2bark": (psycho.hz2bark, lambda f: 26.81 * f / (1960 + f) - .53, FREQ,
                0),
    "hz2bark_zwicker":
        (lambda f, **k: psycho.hz2bark(f, mode="zwicker", **k),
         lambda f: 13 * math.atan(.00076 * f) + 3.5 * math.atan(
             (f / 7500)**2), FREQ, 0),
    "hz2bark_wang": (lambda f, **k: psycho.hz2bark(f, mode="wang", **k),
                     lambda f: 6 * math.asinh(f / 600), FREQ, 0),
    "bark2hz": (psycho.bark2hz, lambda b: 1960 * (b + .53) / (26.28 - b),
                [-.53, 0.0, 5.0, 24.0], 0),
    "bark2hz_wang": (lambda f, **k: psycho.bark2hz(f, mode="wang", **k),
                     lambda b: 600 * math.sinh(b / 6), [0.0, 5.0, 24.0], 0),
    "hz2mel": (psycho.hz2mel, lambda f: 2595 * log10(1 + f / 700), FREQ, 0),
    "mel2hz": (psycho.mel2hz, lambda m: 700 * (10**(m / 2595) - 1),
               [0.0, 10.0, 1000.0, 3000.5], 0),
    "hz2mel_fant": (lambda f, **k: psycho.hz2mel(f, mode="fant", **k),
                    lambda f: 1000 * math.log2(1 + f / 1000), FREQ, 0),
    "mel2hz_fant": (lambda f, **k: psycho.mel2hz(f, mode="fant", **k),
                    lambda m: 1000 * (2**(m / 1000) - 1),
                    [0.0, 10.0, 1000.0, 3000.5], 0),
    "erb": (psycho.erb, lambda f: 6.23e-6 * f * f + .09339 * f + 28.52, FREQ, 0),
    "erb_linear": (lambda f, **k: psycho.erb(f, degree="linear", **k),
                   lambda f: 24.7 * (.00437 * f + 1), FREQ, 0),
    "hz2cams": (psycho.hz2cams,
                lambda f: 11.17 * math.log((f + 312) / (f + 14675)) + 43, FREQ,
                0),
    "hz2cams_linear": (lambda f, **k: psycho.hz2cams(f, degree="linear", **k),
                       lambda f: 21.4 * log10(1 + .00437 * f), FREQ, 0),
    "cams2hz": (psycho.cams2hz, lambda c: (312 - 14675 * math.exp(
        (c - 43) / 11.17)) / (math.exp((c - 43) / 11.17) - 1),
                [0.5, 3.0, 20.0, 35.0], 0),
    "cams2hz_linear": (lambda f, **k: psycho.cams2hz(f, degree="linear", **k),
                       lambda c: (10**(c / 21.4) - 1) / .00437,
                       [0.0, 3.0, 20.0, 35.0], 0),
}
# whole-array functions
WHOLE = {
    "normalize": (dsp.normalize, lambda v: _over(v, max(map(abs, v)))),
    "normalize_peak": (lambda x, **k: dsp.normalize(x, mode="peak", **k),
                       lambda v: _over(v, max(map(abs, v)))),
    "normalize_range": (lambda x, **k: dsp.normalize(x, mode="range", **k),
                        lambda v: _over(v, max(v) - min(v), min(v))),
    "normalize_rms": (lambda x, **k: dsp.normalize(x, mode="rms", **k),
                      lambda v: _rms(v)),
}


def _over(v, k, o=0):
  return [(x - o) / k for x in v]


def _rms(v):
  m = sum(v) / len(v)
  s = math.sqrt(sum((x - m)**2 for x in v) / len(v))
  return [(x - m) / (s or 1) for x in v]


def strided(v, dt):
  a = np.empty(2 * len(v), dtype=dt)
  a[::2] = v
  return a[::2]


def forms(vals):
  """The same values in every form of array-like"""
  isint = all(not isinstance(v, complex) and float(v).is_integer()
              for v in vals)
  base = complex if any(isinstance(v, complex) for v in vals) else float
  yield "list", list(vals), 1
  yield "tuple", tuple(vals), 1
  yield "scalars", tuple(np.asarray(v)[()] for v in vals), 1
  yield "nested", [list(vals), tuple(vals)], 2
  yield "array", np.array(vals, dtype=base), 1
  yield "strided", strided(vals, base), 1
  yield "reversed", np.array(vals[::-1], dtype=base)[::-1], 1
  yield "readonly", _ro(np.array(vals, dtype=base)), 1
  yield "row", np.array([vals], dtype=base), 1
  yield "column", np.array(vals, dtype=base).reshape(-1, 1), 1
  yield "fortran", np.asfortranarray(np.array([vals, vals], dtype=base)), 2
  yield "cube", np.array([[vals], [vals]], dtype=base), 2
  yield "single", np.array(
      vals, dtype=np.complex64 if base is complex else np.float32), 1
  if isint:
    yield "int", np.array([int(v) for v in vals]), 1
    yield "int16", np.array([int(v) for v in vals], dtype=np.int16), 1
    yield "intlist", [int(v) for v in vals], 1


def _ro(a):
  a.flags.writeable = False
  return a


OUTS = ("none", "fresh", "strided", "inplace", "dtype")


def gen(tier):
  k = 2 if tier == "quick" else 3
  for name in FUN:
    vals = FUN[name][2]
    for n in range(k + 1):
      for i in itertools.product(range(len(vals)), repeat=n):
        yield [name, i]
  alpha = [0.0, 1.0, -2.0, 3.0]
  for name in WHOLE:
    for n in range(1, 4 if tier == "quick" else 6):
      for v in itertools.product(range(len(alpha)), repeat=n):
        yield [name, v]


def run(case, st):
  name, idx = case
  if name in FUN:
    f, ref, vals, rtol = FUN[name]
    v = [vals[i] for i in idx]
    try:
      exp = [ref(x) for x in v]
    except (ValueError, ZeroDivisionError):
      return None
  else:
    f, ref = WHOLE[name]
    rtol = 0
    v = [[0.0, 1.0, -2.0, 3.0][i] for i in idx]
    try:
      exp = ref(v)
    except ZeroDivisionError:
      return None  # a silent or constant input has no peak or range
  rtol = rtol or 1e-9
  for fname, x, rep in forms(v):
    r, atol = (2e-5, 1e-4) if fname in (
        "single", "int16") else (rtol, 1e-9)
    if fname == "single" and name == "envelope":
      continue  # the onset is not representable
    cplx = name == "expi"
    e = np.reshape(np.array([exp] * rep, dtype=complex if cplx else float),
                   np.shape(x))
    keep = np.array(x)
    x0 = x
    for o in OUTS:
      x = x0
      what = "%s(%r) [%s, out: %s]" % (name, v, fname, o)
      kw, out = {}, None
      if o in ("fresh", "strided"):
        dt = complex if cplx else float
        out = np.full((*np.shape(x),), 7, dtype=dt)
        if o == "strided":
          out = np.full((*np.shape(x), 2), 7, dtype=dt)[..., 0]
        kw["out"] = out
      elif o == "inplace":
        if not isinstance(x, np.ndarray) or x.dtype != e.dtype or (
            not x.flags.writeable):
          continue
        x = x.copy(order="K")
        kw["out"] = out = x
      elif o == "dtype":
        kw["dtype"] = complex if cplx else np.float64
      y = f(x, **kw)
      vp.check_close(y, e, what, r, atol)
      if out is not None:
        vp.check(y is out or np.shares_memory(y, out) or out.size == 0,
                 "%s: the result is not the output array", what)
        vp.check_close(out, e, what + ": output array", r, atol)
      if o != "inplace":
        vp.check(np.array_equal(keep, np.array(x)), "%s: input modified", what)
        if out is None and isinstance(x, np.ndarray) and x.size:
          vp.check(not np.shares_memory(y, x), "%s: result aliases the input",
                   what)
      vp.check(isinstance(y, np.ndarray), "%s: result is a %s", what, type(y))
      if o == "none":
        vp.check(np.iscomplexobj(y) == cplx, "%s: type %s", what, y.dtype)
    st.count("calls")
  # scalars
  if name in FUN and len(v) == 1:
    xs = [v[0], np.array(v)[0], np.array(v[0])]
    if not isinstance(v[0], complex) and float(v[0]).is_integer():
      xs += [int(v[0]), np.int32(v[0])]
    for x in xs:
      y = f(x)
      vp.check(np.ndim(y) == 0 and not isinstance(y, np.ndarray),
               "%s of scalar %r is %r", name, x, y)
      vp.check_close(y, exp[0], "%s(%r)" % (name, x), rtol, 1e-9)
  return (name, repr(np.round(np.array(exp), 6).tolist()))


# --- Sizes and ranges of the number types ---------------------------------------
def gen_sizes(tier):
  ns = [0, 5, 16, 17, 255, 256, 257, 4096, 4099]
  if tier != "quick":
    ns += [65536, 65537, 1000003]
  for name in list(FUN) + list(WHOLE):
    for n in ns:
      for shape in ([n], [n, 2], [3, n]):
        yield [name, shape]


def run_sizes(case, st):
  """Large arrays"""
  name, shape = case
  if name in FUN:
    f, ref, vals, rtol = FUN[name]
    good = []
    for v in vals:
      try:
        good.append((v, ref(v)))
      except (ValueError, ZeroDivisionError):
        pass
    k = (np.arange(np.prod(shape)) * 7) % len(good)
    x = np.array([v for v, _ in good])[k].reshape(shape)
    e = np.array([v for _, v in good])[k].reshape(shape)
  else:
    f, ref = WHOLE[name]
    rtol = 1e-8
    if not np.prod(shape):
      return None
    x = ((np.arange(np.prod(shape)) * 7) % 1009 - 400.).reshape(shape)
    e = np.reshape(ref(x.ravel().tolist()), shape)
  rtol = rtol or 1e-9
  keep = x.copy()
  y = f(x)
  vp.check_close(y, e, "%s of an array of shape %s" % (name, shape), rtol, 1e-9)
  vp.check(np.array_equal(x, keep), "%s: input modified", name)
  for a in (x.T, x[::-1], np.asfortranarray(x)):
    b = e.T if a.shape == e.T.shape and a is not x and np.array_equal(
        a, x.T) else (e[::-1] if np.array_equal(a, x[::-1]) else e)
    vp.check_close(f(a), b, "%s of a view of shape %s" % (name, a.shape), rtol,
                   1e-9)
  out = np.full(np.shape(e), 7, dtype=e.dtype)
  vp.check_close(f(x, out=out), e, name, rtol, 1e-9)
  vp.check_close(out, e, name + ": output array", rtol, 1e-9)
  if x.dtype == e.dtype:
    x = keep.copy()
    vp.check_close(f(x, out=x), e, name + ", in place", rtol, 1e-9)
    vp.check_close(x, e, name + ", in place", rtol, 1e-9)
  return (name, tuple(shape))


TYPES = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64",
         "float32", "float64", "bool")


def gen_types(tier):
  for name in list(FUN) + list(WHOLE):
    if name.startswith("semi"):
      continue  # used on the parameters of beats, which are not of small types
    for t in TYPES:
      yield [name, t]


def edges(t):
  """Numbers at the limits of a type"""
  if t == "bool":
    return [False, True]
  if t.startswith("float"):
    return [0., 1., -1., .5, 3e4, -3e4]
  i = np.iinfo(t)
  v = [0, 1, 2, 100, i.max, i.max - 1, i.max // 2, 2**(i.bits // 2), 181, 182,
       16384, 46341, 65536]
  if i.min:
    v += [-1, -2, -100, i.min, i.min + 1]
  return [x for x in dict.fromkeys(v) if i.min <= x <= i.max]


def run_types(case, st):
  """Integers do not overflow and are not truncated"""
  name, t = case
  vals = edges(t)
  if name in WHOLE:
    f, ref = WHOLE[name]
    n = 0
    for v in itertools.permutations(vals, 2):
      for w in (v, v + v[:1], (0, *v)):
        try:
          e = ref([float(x) for x in w])
        except ZeroDivisionError:
          continue
        if max(w) - min(w) > 1e-2 * max(map(abs, map(float, w))):
          # otherwise there is no precision left in single precision
          y = f(np.array(w, dtype=t))
          vp.check_close(y, e, "%s of %r of type %s" % (name, w, t), 1e-4,
                         1e-3)
        y = f(np.array(w, dtype=t), dtype=float)
        vp.check_close(y, e, "%s of %r of type %s" % (name, w, t), 1e-9, 1e-9)
        n += 1
    return (name, t, n)
  f, ref, _, rtol = FUN[name]
  good = []
  for v in vals:
    try:
      r = ref(complex(v) if name.startswith("complex") else float(v))
      if abs(r) < 1e300:
        good.append((v, r))
    except (ValueError, ZeroDivisionError, OverflowError):
      pass
  if t.startswith(("int64", "uint32", "int32")) and name in ("expi",):
    good = [(v, r) for v, r in good if abs(v) < 1e6]
  # numpy evaluates transcendental functions of 8 bits integers in half
  # precision and those of 16 bits in single precision
  atol = {"float32": 1e-3, "int8": .05, "uint8": .05, "bool": .05}.get(t, 1e-6)
  rtol = max(rtol, {"float32": 3e-4, "int8": 2e-3, "uint8": 2e-3,
                    "bool": 2e-3, "int16": 1e-6, "uint16": 1e-6}.get(t, 1e-8))
  for v, r in good:
    for a in (np.array([v], dtype=t), np.array(v, dtype=t)[()]):
      with np.errstate(all="ignore"):
        y = f(a)
      if np.any(np.isinf(y)) and t not in ("float32", "float64"):
        raise vp.Violation("%s(%r of type %s) is %r, not %r" % (name, v, t, y,
                                                                r))
      vp.check_close(np.reshape(y, -1), [r], "%s(%r of type %s)" % (name, v, t),
                     rtol, atol)
  return (name, t, len(good))


# --- Variants ------------------------------------------------------------------
VARIANTS = {
    "hz2bark": (psycho.hz2bark, "mode", ("traunmuller", "zwicker", "wang")),
    "bark2hz": (psycho.bark2hz, "mode", ("traunmuller", "wang")),
    "hz2mel": (psycho.hz2mel, "mode", ("default", "fant")),
    "mel2hz": (psycho.mel2hz, "mode", ("default", "fant")),
    "erb": (psycho.erb, "degree", ("quadratic", "linear")),
    "hz2cams": (psycho.hz2cams, "degree", ("quadratic", "linear")),
    "cams2hz": (psycho.cams2hz, "degree", ("quadratic", "linear")),
    "normalize": (dsp.normalize, "mode", ("peak", "rms", "range")),
}


def gen_var(tier):
  names = sorted({v for x in VARIANTS.values() for v in x[2]})
  for f in VARIANTS:
    for v in [None] + names + ["", "Quadratic", "nope"]:
      yield [f, v]


def run_var(case, st):
  """The option selects the variant, its first value is the default and
  anything else is refused"""
  f, v = case
  fn, key, names = VARIANTS[f]
  x = np.array([3.0, 1.0, 2.0])
  if v is None:
    vp.check_close(fn(x), fn(x, **{key: names[0]}), "default variant of " + f)
  elif v in names:
    vp.check(np.isfinite(fn(x, **{key: v})).all(), "%s(%s)", f, v)
    for o in names:
      if o != v:
        vp.check(not np.allclose(fn(x, **{key: v}), fn(x, **{key: o})),
                 "%s: variants %s and %s are the same", f, v, o)
  else:
    e = vp.check_raises(ValueError, lambda: fn(x, **{key: v}),
                        "%s(%s=%r)" % (f, key, v))
    vp.check(all(n in str(e) for n in names), "message %r does not list the "
             "options %r", str(e), names)
  return (f, v)


# --- Arrays as the other operands ------------------------------------------------
# name: (function of the operands, formula, values of each operand)
OPS = {
    "a2db_floor": (lambda x, f, **k: dsp.a2db(x, f, **k),
                   lambda x, f: _db(max(x, f)), ([1., 1e-6, 0.], [.5, 1e-3])),
    "a2db_floor_by_name": (lambda x, f, **k: dsp.a2db(x, floor=f, **k),
                           lambda x, f: _db(max(x, f)),
                           ([1., 1e-6, 0.], [.5, 1e-3])),
    "a2db_floor_db":
        (lambda x, f, **k: dsp.a2db(x, floor=f, floor_db=True, **k),
         lambda x, f: max(_db(x), f), ([1., 1e-6, 0.], [-20, -40, 0])),
    "complex2db_floor": (lambda x, f, **k: dsp.complex2db(x, floor=f, **k),
                         lambda x, f: _db(max(abs(x), f)),
                         ([1j, 1e-6, -3 + 4j], [.5, 1e-3])),
    "complex2db_floor_db":
        (lambda x, f, **k: dsp.complex2db(x, floor=f, floor_db=True, **k),
         lambda x, f: max(_db(abs(x)), f), ([1j, 1e-6, -3 + 4j], [-20, -40])),
    "modal_energy": (modal_energy, lambda a, d: a * a * d / 4,
                     ([.5, -2., 3.], [1, .25, 0])),
    "modal_energy_by_name": (lambda a, d, **k: modal_energy(a, d=d, **k),
                             lambda a, d: a * a * d / 4,
                             ([.5, -2., 3.], [1, .25, 0])),
    "hwr": (lambda x, t, **k: psycho.hwr(x, t, **k), max,
            ([.5, -2., 3.], [0, 1.5, -3])),
    "semisum": (np2pg.semisum, lambda x, y: (x + y) / 2,
                ([.5, -2., 3.], [1, .25, 0])),
    "semidiff": (np2pg.semidiff, lambda x, y: (x - y) / 2,
                 ([.5, -2., 3.], [1, .25, 0])),
    "hinge": (hinge.hinge_function, lambda x, a, k, q: k * min(x, a) + q,
              ([.5, 2., 3.], [1, 2.5], [-1, .5], [0, 4])),
    "bin2f": (lambda b, n, f, **k: dsp.bin2f(b, n, f, **k),
              lambda b, n, f: b * f / n, ([0, 1, 7], [64, 32], [1000, 8000])),
    "f2bin": (lambda f, n, s, **k: dsp.f2bin(f, n, s),
              lambda f, n, s: math.ceil(f * (n / s)),
              ([0., 100., 333.3], [64, 32], [1000, 8000])),
    "envelope": (lambda t, n, c, b, **k: psycho.GammatoneFilter(
        n=n, t_c=c, bandwidth=b).envelope(t, **k), lambda t, n, c, b: _env(t, n, c, b),
                 ([-.5, .001, .02], [1, 4], [0, .01], [10., 50.])),
    "decay": (lambda t, a, d, **k: beatsdrop.ExponentialDecay(a, d)(t, **k),
              lambda t, a, d: a * math.exp(-2 * t / d),
              ([0., .5, 2.], [1, .25], [1, 3])),
}
# how the other operands are given
OTHERS = {
    "scalar": lambda v, sh: v[0],
    "array": lambda v, sh: np.resize(np.array(v, float), sh),
    "readonly": lambda v, sh: _ro(np.resize(np.array(v, float), sh)),
    "reversed": lambda v, sh: np.resize(np.array(v, float), sh)[..., ::-1],
    "one": lambda v, sh: np.array([v[-1]], float),
    "column": lambda v, sh: np.resize(np.array(v, float), (*sh[:-1], 1)),
    "list": lambda v, sh: np.resize(np.array(v, float), sh).tolist(),
    "int": lambda v, sh: np.resize(np.round(v).astype(int), sh),
}


def gen_ops(tier):
  for name in OPS:
    m = len(OPS[name][2]) - 1
    for form in itertools.product(OTHERS, repeat=m):
      for sh in ([3], [2, 3], [0]):
        yield [name, list(form), sh]


def run_ops(case, st):
  """Every operand may be an array; none is modified, and calling again gives
  the same"""
  name, forms_, sh = case
  f, ref, vals = OPS[name]
  what = "%s, %r, shape %r" % (name, forms_, sh)
  if any(k == "int" for k in forms_) and name in (
      "a2db_floor", "a2db_floor_by_name", "complex2db_floor", "envelope"):
    return None  # there are no such integers
  if name in ("decay", "bin2f", "f2bin", "envelope") and "list" in forms_:
    return None  # used in expressions, as they are given
  cplx = any(isinstance(v, complex) for v in vals[0])
  x = np.resize(np.array(vals[0], complex if cplx else float), sh)
  ops = [OTHERS[k](v, tuple(sh)) for k, v in zip(forms_, vals[1:])]
  keep = [np.array(o) for o in (x, *ops)]
  bc = np.broadcast_arrays(x, *ops)
  if bc[0].shape != x.shape:
    return None
  e = np.reshape(np.array([ref(*(o.item() if hasattr(o, "item") else o
                                 for o in t)) for t in zip(*map(np.ravel, bc))],
                          dtype=float), x.shape)
  out = np.full(x.shape, 7.)
  for n, kw in enumerate(({}, {}, {"out": out}, {"out": out}, {})):
    y = f(x, *ops, **kw)
    if name == "f2bin":
      kw = {}
    vp.check_close(y, e, "%s, call %d" % (what, n), 1e-9, 1e-9)
    if kw:
      vp.check_close(out, e, what + ": output array", 1e-9, 1e-9)
    for o, k in zip((x, *ops), keep):
      vp.check(np.array_equal(np.array(o), k), "%s: an operand is modified from "
               "%r to %r", what, k, o)
      if isinstance(o, np.ndarray) and o.size:
        vp.check(not np.shares_memory(y, o), "%s: the result is an operand",
                 what)
  if not cplx and name != "f2bin":
    z = x.copy()
    vp.check_close(f(z, *ops, out=z), e, what + ", in place", 1e-9, 1e-9)
    vp.check(all(np.array_equal(np.array(o), k) for o, k in zip(ops, keep[1:])),
             "%s: an operand is modified in place", what)
  st.count("operands")
  return (name, tuple(forms_), tuple(sh))


if __name__ == "__main__":
  vp.main(
      "C10", [("values", gen, run, {"chunk": 16}),
              ("sizes", gen_sizes, run_sizes, {"chunk": 16}),
              ("types", gen_types, run_types, {"chunk": 8}),
              ("operands", gen_ops, run_ops, {"chunk": 16}),
              ("variants", gen_var, run_var, {"chunk": 8})],
      level="exploration",
      rule="every function x every tuple of values over its alphabet x every "
      "array form (lists, strides, orders, read-only, integers, single "
      "precision, empty, multi-dimensional, scalars) x every way of giving "
      "the output array, against scalar formulas; every function of several "
      "operands x every form of the others",
      bounds={
          "quick": "tuples of <=2 values (<=3 for normalization)",
          "thorough": "tuples of <=3 values (<=5 for normalization)"
      },
      assumptions=["normalization of silent or constant signals by peak or "
                   "range is outside the property"])

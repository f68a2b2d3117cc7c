"""C11: psychoacoustic frequency scales and the mel filterbank"""
import itertools

import numpy as np
import vp
from scipy import signal
from sample import psycho

PAIRS = {
    "bark": (psycho.hz2bark, psycho.bark2hz, {}),
    "bark-traunmuller": (psycho.hz2bark, psycho.bark2hz, {
        "mode": "traunmuller"
    }),
    "bark-wang": (psycho.hz2bark, psycho.bark2hz, {
        "mode": "wang"
    }),
    "mel": (psycho.hz2mel, psycho.mel2hz, {}),
    "mel-fant": (psycho.hz2mel, psycho.mel2hz, {
        "mode": "fant"
    }),
    "cams": (psycho.hz2cams, psycho.cams2hz, {}),
    "cams-quadratic": (psycho.hz2cams, psycho.cams2hz, {
        "degree": "quadratic"
    }),
    "cams-linear": (psycho.hz2cams, psycho.cams2hz, {
        "degree": "linear"
    }),
    "bark-zwicker": (psycho.hz2bark, None, {
        "mode": "zwicker"
    }),
    "erb": (psycho.erb, None, {}),
    "erb-linear": (psycho.erb, None, {
        "degree": "linear"
    }),
}
BLOCK = 256


def gen_scale(tier):
  step = 1 if tier == "quick" else .0625
  n = int(24000 / step)
  for name in PAIRS:
    for k in range(0, n, BLOCK if tier == "quick" else 4096):
      yield [name, k, step]


def run_scale(case, st):
  """Every frequency of the grid: increasing, invertible both ways"""
  name, k, step = case
  to, fro, kw = PAIRS[name]
  n = BLOCK if step == 1 else 4096
  f = (k + np.arange(n + 1)) * float(step)
  s = to(f, **kw)
  vp.check(np.isfinite(s).all(), "%s: not finite", name)
  vp.check((np.diff(s) > 0).all(), "%s: not increasing from %s Hz", name,
           f[:-1][np.diff(s) <= 0][:1])
  for i in (0, 1, n // 2, n):
    vp.check_close(to(f[i], **kw), s[i], "%s of scalar %s" % (name, f[i]))
  if fro is not None:
    vp.check_close(fro(s, **kw), f, name + ": there and back", 1e-9, 1e-6)
    g = np.linspace(s[0], s[-1], n + 1)
    b = fro(g, **kw)
    vp.check((np.diff(b) > 0).all(), "%s: inverse not increasing", name)
    vp.check_close(to(b, **kw), g, name + ": back and there", 1e-9, 1e-6)
  st.count("frequencies", n + 1)
  return (name, round(float(s[0]), 3), round(float(s[-1]), 3))


def gen_erb(tier):
  for deg in (None, "quadratic", "linear"):
    for k in range(0, 16000, BLOCK):
      yield [deg, k]


def run_erb(case, st):
  """One unit of the ERB-rate scale per equivalent rectangular bandwidth"""
  deg, k = case
  kw = {} if deg is None else {"degree": deg}
  f = k + np.arange(BLOCK, dtype=float)
  slope = (psycho.hz2cams(f + .5, **kw) - psycho.hz2cams(f - .5, **kw))
  p = slope * psycho.erb(f, **kw)
  vp.check(np.abs(p - 1).max() < .02,
           "%s: %s ERB-rate units in the equivalent bandwidth at %s Hz", deg,
           p[np.argmax(np.abs(p - 1))], f[np.argmax(np.abs(p - 1))])
  st.count("frequencies", BLOCK)
  return (deg, k)


def gen_points(tier):
  yield "bark"
  yield "mel"
  yield "cams"
  yield "weights"


def run_points(case, st):
  """Anchors of the scales in the literature"""
  if case == "bark":
    # critical bands (Zwicker): edges in Hz of bands 1, 5, 10, 15, 20
    e = psycho.hz2bark(np.array([100., 510., 1270., 2700., 6400.]),
                       mode="zwicker")
    vp.check(np.abs(e - [1, 5, 10, 15, 20]).max() < .25, "critical bands %s",
             e)
    e = psycho.hz2bark(np.array([510., 1270., 2700.]))
    vp.check(np.abs(e - [5, 10, 15]).max() < .5, "critical bands %s", e)
  elif case == "mel":
    for kw in ({}, {"mode": "fant"}):
      e = psycho.hz2mel(np.array([0., 1000.]), **kw)
      vp.check(np.abs(e - [0, 1000]).max() < .1, "mel reference %s", e)
  elif case == "cams":
    for kw in ({}, {"degree": "linear"}):
      e = psycho.hz2cams(np.array([0., 1000.]), **kw)
      vp.check(np.abs(e - [0, 15.5]).max() < .4, "ERB-rate %s", e)
    vp.check(abs(psycho.erb(1000., degree="linear") - 132.6) < .1, "ERB")
    vp.check(abs(psycho.erb(1000.) - 128.14) < .1, "ERB")
  else:
    # IEC 61672 table of A-weights (tolerance: rounding of the table)
    f = np.array([31.62, 100, 199.5, 501.2, 1000, 1995, 3981, 10000, 15850])
    e = [-39.4, -19.1, -10.9, -3.2, 0, 1.2, 1.0, -2.5, -6.6]
    w = psycho.a_weighting(f)
    vp.check(np.abs(w - e).max() < .1, "A-weights %s", w)
  return case


# --- Mel filterbank ------------------------------------------------------------
AXES = {
    "coarse": [0., 100., 200., 300., 400.],
    "fine": list(np.arange(0., 1001., 31.25)),
    "uneven": [10., 20., 50., 300., 900., 1000.],
}
TRANSF = {
    "mel": (psycho.hz2mel, psycho.mel2hz),
    "cams": (psycho.hz2cams, psycho.cams2hz),
    "linear": (lambda x: x, lambda x: x),
}
BWS = {
    "none": None,
    "const": lambda f: 50.,
    "erb": psycho.erb,
    "prop": lambda f: f / 2 + 1,
}
FLIMS = {
    "none": None,
    "pair": [50., 350.],
    "three": [50., 100., 350.],
    "four": [0., 100., 250., 400.],
    "five": [20., 100., 250., 400., 1500.],
}


def gen_mel(tier):
  for ax, tr, bw, fl in itertools.product(AXES, TRANSF, BWS, FLIMS):
    for n in [None, 0, 1, 2, 5] + ([3, 4, 9, 16, 40] if tier != "quick" else []):
      for arr in (False, True):
        yield [ax, tr, bw, fl, n, arr]


def ref_mel(ax, tr, bw, fl, n):
  """Corner and center frequencies and filter values"""
  fl = [ax[0], ax[-1]] if fl is None else fl
  if n is not None:
    a, b = float(tr[0](fl[0])), float(tr[0](fl[-1]))
    fl = [float(tr[1](a + (b - a) * i / (n + 1))) for i in range(n + 2)]
    if bw is not None:
      fl = fl[1:-1]
  if bw is None:
    corners = [fl[i:i + 3] for i in range(len(fl) - 2)]
  else:
    corners = [[c - bw(c), c, c + bw(c)] for c in fl]
  out = []
  for l, c, r in corners:
    row = []
    for f in ax:
      if f == c:
        row.append(1.)
      elif l < f < c:
        row.append((f - l) / (c - l))
      elif c < f < r:
        row.append((r - f) / (r - c))
      else:
        row.append(0.)
    out.append(row)
  return out, [c[1] for c in corners]


def run_mel(case, st):
  ax, tr, bw, fl, n, arr = case
  mk = np.array if arr else list
  f = mk(AXES[ax])
  kw = dict(n_filters=n,
            bandwidth=BWS[bw],
            flim=None if FLIMS[fl] is None else mk(FLIMS[fl]),
            freq_transform=TRANSF[tr])
  filts, centers = ref_mel(AXES[ax], TRANSF[tr], BWS[bw], FLIMS[fl], n)
  if not filts:
    vp.check_raises(ValueError,
                    lambda: psycho.mel_triangular_filterbank(f, **kw),
                    "no filters")
    return "error"
  w, c = psycho.mel_triangular_filterbank(f, **kw)
  vp.check_close(c, np.array(centers), "center frequencies", 1e-9, 1e-6)
  vp.check_close(w, np.array(filts), "filters", 1e-6, 1e-6)
  vp.check(list(f) == AXES[ax], "frequency axis modified")
  if arr and n == 2:
    # the spectrogram is filtered with the same filters
    s = np.array([[1, 1j, -2.], [.5, 0, 3 + 4j]] * len(f))[:len(f)]
    keep = s.copy()
    for p in (None, 1, 2, 3):
      e = np.array(filts) @ s if p is None else (
          np.array(filts) @ np.abs(s)**p)**(1 / p)
      m, cf = psycho.stft2mel(s, f, power=p, **kw)
      vp.check_close(m, e, "mel spectrogram (power %s)" % p, 1e-6, 1e-6)
      vp.check_close(cf, c, "frequencies of the spectrogram")
      m, cf = psycho.stft2mel(s, f, filterbank=w, power=p)
      vp.check_close(m, e, "mel spectrogram, given filters", 1e-6, 1e-6)
      vp.check(cf is None, "center frequencies of unknown filters: %r", cf)
      r = np.abs(s)
      keep_r = r.copy()
      psycho.stft2mel(r, f, power=p, **kw)
      vp.check(np.array_equal(r, keep_r), "real spectrogram modified")
    vp.check(np.array_equal(s, keep), "input spectrogram modified")
    # any power, type of magnitudes and of filters
    ints = np.array([[1, 0, -2], [4, 9, 3]] * len(f))[:len(f)]
    for p in (.5, 1, 1.5, 2, 3):
      for z in (s, ints, ints.tolist(), ints.astype(np.float32)):
        m, _ = psycho.stft2mel(z, f, power=p, **kw)
        vp.check_close(m, (np.array(filts) @ np.abs(z)**p)**(1 / p),
                       "mel spectrogram (power %s)" % p, 1e-5, 1e-5)
        for fi in (np.array([range(len(f))] * 2), [[1] * len(f)]):
          m, _ = psycho.stft2mel(z, f, filterbank=fi, power=p)
          vp.check_close(m, (np.array(fi) @ np.abs(z)**float(p))**(1 / p),
                         "filtered by integers (power %s)" % p, 1e-5, 1e-5)
        st.count("spectrograms", 3)
    vp.check(ints[0, 2] == -2, "real spectrogram modified")
    st.count("spectrograms", 8)
  return repr(np.round(w, 5).tolist())


def gen_spec(tier):
  for n in (64, 100, 257):
    for kw in ({}, {"fs": 1000.}, {"nperseg": 32}, {"fs": 8000., "nperseg": 50},
               None):
      for nf in (1, 3):
        for p in (None, 1, 2):
          yield [n, kw, nf, p]


def run_spec(case, st):
  n, kw, nf, p = case
  x = np.sin(np.arange(n) * .3) + .3 * np.cos(np.arange(n) * 1.7)
  keep = x.copy()
  k0 = None if kw is None else dict(kw)
  cf, t, m = psycho.mel_spectrogram(x, stft_kws=kw, n_filters=nf, power=p)
  f, te, s = signal.stft(x, **(kw or {}))
  filts, centers = ref_mel(list(f), TRANSF["mel"], None, None, nf)
  e = np.array(filts) @ s if p is None else (
      np.array(filts) @ np.abs(s)**p)**(1 / p)
  vp.check_close(cf, np.array(centers), "center frequencies", 1e-9, 1e-6)
  vp.check_close(t, te, "times")
  vp.check_close(m, e, "mel spectrogram", 1e-6, 1e-9)
  vp.check(np.array_equal(x, keep) and kw == k0, "arguments modified")
  return repr(np.round(np.abs(m), 5).tolist())


if __name__ == "__main__":
  vp.main(
      "C11", [("scales", gen_scale, run_scale, {"chunk": 64}),
              ("erb rate", gen_erb, run_erb, {"chunk": 64}),
              ("anchors", gen_points, run_points, {"serial": True}),
              ("filterbank", gen_mel, run_mel, {"chunk": 64}),
              ("spectrogram", gen_spec, run_spec, {"chunk": 8})],
      level="exploration",
      rule="every frequency of the grid x every scale and variant; every "
      "combination of axis x transform x bandwidth x limits x number of "
      "filters, against triangular filters computed pointwise",
      bounds={
          "quick": "every integer frequency below 24 kHz, <=5 filters",
          "thorough": "every sixteenth of Hz below 24 kHz, <=40 filters"
      },
      assumptions=["ERB-rate slope within 2%: the published constants are "
                   "rounded"])

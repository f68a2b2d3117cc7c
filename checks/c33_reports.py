"""C33: the reports of the evaluation and the image of the benchmark show the computed results"""
import argparse
import contextlib
import importlib.util
import io
import itertools
import math
import os
import re
import shutil
import tempfile
import types
from unittest import mock

import numpy as np
import pandas as pd
import vp
from matplotlib import pyplot as plt


def load(*path):
  p = os.path.join(vp.REPO, "scripts", *path)
  spec = importlib.util.spec_from_file_location("vp33_" + path[-1][:-3], p)
  m = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(m)
  return m


ev = load("beatsdrop", "evaluation.py")
perf = load("cim22", "performance.py")

VARS = [f"{k}{i}" for k in "fad" for i in range(2)]
MODELS = ("dbr", "br")
POPS = [f"{v}_{m}_ar" for v in VARS for m in MODELS]
UNITS = {"f": ("\\nu", "mel"), "a": ("a", "dB"), "d": ("d", "s")}
NUM = r"\s*&\s*([-+.\de]+)"


def parse(text):
  """(medians and intervals, comparisons) of a report"""
  names = re.findall(r"multicolumn\{2\}\{c\}\{\s*(\w+)\s*\}\s*%\s*(\w+)", text)
  vp.check(names == [("BeatsDROP", "dbr"), ("Baseline", "br")],
           "columns of the table: %r", names)
  tab = {}
  pat = (r"\$(\\nu|a|d)_(\d)\$\s*\((\w+)\)\s*%\s*(\w+)" +
         (NUM + r"\s*&\s*[\[(]([-+.\de]+),\s*([-+.\de]+)[\])]") * 2)
  for g in re.findall(pat, text):
    sym, i, unit, v = g[:4]
    vp.check(v not in tab and (sym, unit) == UNITS[v[0]] and
             int(i) == int(v[1]) + 1, "row %r", g)
    tab[v] = [float(n) for n in g[4:]]
  vp.check(sorted(tab) == sorted(VARS), "rows of the table: %r", sorted(tab))
  two = re.findall(r"\\item\{\s*(\w+)\s*\}\s*median error of br is (\S+) wrt "
                   r"dbr", text)
  vp.check([t[0] for t in two] == VARS, "comparisons of the models: %r", two)
  cmp = {(f"{v}_br_ar", f"{v}_dbr_ar"): d for v, d in two}
  part = re.findall(r"\\item\{\s*(\w+)\s*\}\s*median error on (\w)0 is (\S+) wrt "
                    r"(\w)1", text)
  vp.check([(k, m) for m, k, _, _ in part] == [
      (k, m) for k in "fad" for m in MODELS
  ] and all(k == j for _, k, _, j in part),
           "comparisons of the partials: %r", part)
  for m, k, d, _ in part:
    cmp[f"{k}0_{m}_ar", f"{k}1_{m}_ar"] = d
  return tab, cmp


HEAD = ["\\documentclass{article}", "", "\\usepackage{booktabs}",
        "\\begin{document}", "REPORT OF THE TESTS", "\\end{document}"]


def check_document(text, head):
  """One document: that of autorank, with the tables before its end"""
  rows = [r for r in text.splitlines() if r.strip()]
  vp.check(rows[0] == "\\documentclass{article}" and
           rows[-1].strip() == "\\end{document}", "document from %r to %r",
           rows[0], rows[-1])
  vp.check("geometry" in rows[1], "page geometry in %r", rows[1])
  for k in ("\\documentclass", "\\begin{document}", "\\end{document}",
            "\\begin{table*}"):
    vp.check(text.count(k) == 1, "%d times %s", text.count(k), k)
  pos = [text.find(h) for h in head if h]
  vp.check(-1 not in pos and pos == sorted(pos), "report of the tests")


# --- Tables ---------------------------------------------------------------------------
def gen_tab(tier):
  n = len(POPS)
  for step in (1, 5, 7, 11):
    for off in range(n):
      for ci in ("new", "old"):
        for cd in (.4, 2.6, 20.):
          yield ["rank", step, off, ci, cd]
        for half in ("both", "above", "below", "full"):
          yield ["bayes", step, off, ci, half]


OPP = {"smaller": "larger", "larger": "smaller", "equal": "equal",
       "inconclusive": "inconclusive"}


def run_tab(case, st):
  kind, step, off, ci, x = case
  n = len(POPS)
  order = [(i * step + off) % n for i in range(n)]
  idx = [POPS[i] for i in order]  # as if sorted by the results
  med = {p: 100 + 7.125 * j for j, p in enumerate(POPS)}
  lo = {p: med[p] - 1.5 - j / 8 for j, p in enumerate(POPS)}
  hi = {p: med[p] + 2.25 + j / 8 for j, p in enumerate(POPS)}
  rank = {p: 1. + i for i, p in enumerate(idx)}
  df = pd.DataFrame({"meanrank": [rank[p] for p in idx],
                     "median": [med[p] for p in idx]}, index=idx)
  if ci == "new":
    df["ci_lower"] = [lo[p] for p in idx]
    df["ci_upper"] = [hi[p] for p in idx]
  else:
    df["CI"] = [[lo[p], hi[p]] for p in idx]
  dec, cd = None, None
  if kind == "rank":
    cd = x

    def expected(p, q):
      d = rank[p] - rank[q]
      return "equal" if abs(d) < cd else ("larger" if d > 0 else "smaller")
  else:

    def expected(p, q):
      i, j = idx.index(p), idx.index(q)
      if i > j:
        return OPP[expected(q, p)]
      return ("smaller", "larger", "equal", "inconclusive")[(i * 5 + j + off) %
                                                            4]

    # column with respect to row
    dec = pd.DataFrame(np.nan, index=idx, columns=idx, dtype=object)
    for i, p in enumerate(idx):
      for j, q in enumerate(idx):
        if i != j and (x in ("both", "full") or (i < j) == (x == "above")):
          dec.loc[q, p] = expected(p, q)
  r = argparse.Namespace(rankdf=df, decision_matrix=dec, cd=cd)
  calls = []

  def latex(res, **kw):
    calls.append(res)
    print("\n".join(HEAD))

  s = io.StringIO()
  with mock.patch.object(ev.autorank, "latex_report", latex), (
      contextlib.redirect_stdout(s)):
    ev.print_report(r)
  text = s.getvalue()
  vp.check(len(calls) == 1 and calls[0] is r, "report of other tests")
  check_document(text, HEAD)
  tab, cmp = parse(text)
  for v in VARS:
    e = []
    for m in MODELS:
      p = f"{v}_{m}_ar"
      e += [med[p], lo[p], hi[p]]
    vp.check_close(np.array(tab[v]), np.array(e), "table, %s" % v, 1e-9, 6e-4)
  for (p, q), d in cmp.items():
    vp.check(d == expected(p, q), "%s reported %s than %s, not %s", p, d, q,
             expected(p, q))
    st.count("comparisons")
  return (kind, step, off, x)


# --- Tests and report -----------------------------------------------------------------
SHAPES = ("skewed", "normal", "equal")


def gen_rep(tier):
  for n in (5, 9, 24):
    for shape in SHAPES:
      for scale in (.25, 1., 4.):
        for freq in (False, True):
          yield [n, shape, scale, freq]


def run_rep(case, st):
  n, shape, scale, freq = case
  q = (np.arange(n) + .5) / n
  base = {"skewed": -np.log(1 - q)**3 + .01,
          "normal": 3 + np.sqrt(2) * np.array(
              [math.erf(1.6 * (v - .5)) for v in q]),
          "equal": 1 + q / 1000}[shape]
  df = {}
  err = {}
  for k, v in enumerate(VARS):
    p = np.roll(np.arange(n), k)
    x = 1000. + 10 * p if v[0] == "f" else (.5 + p / (4 * n))
    df[v] = x
    for m in ("br", "dbr"):
      c = np.roll(base, 3 * k + (m == "br")) * (scale if m == "br" else 1)
      sg = np.where(np.arange(n) % 2, 1, -1)
      if v[0] == "f":
        y = 700 * (10**((2595 * np.log10(1 + x / 700) + sg * c) / 2595) - 1)
      elif v[0] == "a":
        y = 10**((20 * np.log10(x) + sg * c) / 20)
      else:
        y = x + sg * c
      df[f"{m}_{v}"] = y
      err[f"{v}_{m}_ar"] = c
  args = argparse.Namespace(df=pd.DataFrame(df), output=None, alpha=.05,
                            frequentist=freq, n_samples=20)
  s = io.StringIO()
  with contextlib.redirect_stdout(s), contextlib.redirect_stderr(io.StringIO()):
    np.random.seed(0)
    ev.statistical_tests(args)
  text = s.getvalue()
  text = text[text.index("\\documentclass"):]
  check_document(text, ["\\begin{document}", "\\section{Results}"])
  tab, cmp = parse(text)
  for v in VARS:
    for i, m in enumerate(MODELS):
      c = err[f"{v}_{m}_ar"]
      vp.check_close(args.df[f"{v}_{m}_ar"], c, "errors", 1e-6, 1e-6)
      g = tab[v][3 * i:3 * i + 3]
      vp.check(abs(g[0] - np.median(c)) < 6e-4, "median %r of %s, not %r", g[0],
               v, np.median(c))
      vp.check(g[1] <= g[0] + 1e-3 and g[0] <= g[2] + 1e-3, "interval %r", g)
  for (p, q), d in cmp.items():
    st.count(d)
    if d in ("smaller", "larger"):
      if freq:
        r = args.df[POPS].rank(axis=1).mean()
        vp.check((r[p] < r[q]) == (d == "smaller"), "%s is %s than %s with ranks "
                 "%r and %r", p, d, q, r[p], r[q])
      elif abs(np.median(err[p]) - np.median(err[q])) > .05:
        vp.check((np.median(err[p]) < np.median(err[q])) == (d == "smaller"),
                 "%s is %s than %s", p, d, q)
  if freq:
    cd = args.rank_result.cd
    r = args.df[POPS].rank(axis=1).mean()
    for (p, q), d in cmp.items():
      if abs(abs(r[p] - r[q]) - cd) > 1e-6:
        vp.check((abs(r[p] - r[q]) < cd) == (d == "equal"), "%s with a difference "
                 "of ranks of %r", d, r[p] - r[q])
  return case


# --- Image of the speed-up ----------------------------------------------------------------
LEVELS = [1 / 300, .1, .5, .8, 1., 1.3, 2., 7., 100., float("nan")]


def gen_img(tier):
  lv = range(len(LEVELS))
  for a in itertools.product(lv, repeat=3):
    if tier == "quick" and (a[0] > a[2] or not any(LEVELS[i] > 0 for i in a)):
      continue
    for nt in (1, 3):
      yield [list(a), nt]


def run_img(case, st):
  a, nt = case
  s = np.array([[LEVELS[a[0]], LEVELS[a[1]]], [LEVELS[a[2]], 1.]])
  keep = s.copy()
  plt.close("all")
  plt.figure()
  im, bar = perf.log_speedup_imshow(s, nticks=nt)
  vp.check(np.array_equal(s, keep, equal_nan=True), "speed-up modified")
  lg = np.log2(s)
  top = max([v for v in lg.ravel() if v > 0], default=None)
  low = max([-v for v in lg.ravel() if v < 0], default=None)
  e = [[v / top if v > 0 else v / low if v < 0 else v for v in r] for r in lg]
  got = np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan)
  vp.check(np.allclose(got, e, 1e-9, 1e-12, equal_nan=True), "image %r of the "
           "speed-up %r", got.tolist(), s.tolist())
  vp.check(im.origin == "lower" and tuple(im.get_clim()) == (-1, 1),
           "origin and limits of the image")
  pos = list(bar.ax.get_yticks())
  lab = [t.get_text() for t in bar.ax.get_yticklabels()]
  vp.check(len(pos) == len(lab) and pos == sorted(pos) and
           len(set(pos)) == len(pos), "ticks %r labelled %r", pos, lab)
  sides = [0, 0]
  for p, t in zip(pos, lab):
    m = re.fullmatch(r"\$\\nicefrac\{1\}\{(\d+)\}\$|(\d+)", t)
    vp.check(m is not None, "label %r", t)
    v = -math.log2(int(m[1])) if m[1] else math.log2(int(m[2]))
    x = v / (top if v > 0 else low) if v else 0.
    vp.check(abs(p - x) < 1e-9 and abs(x) <= 1, "label %r at %r, not %r", t, p,
             x)
    if v:
      sides[v > 0] += 1
  vp.check(0. in pos, "no speed-up not labelled")
  for m, k in zip((low, top), sides):
    vp.check(k <= nt and (k > 0) == (m is not None and
                                     m >= max(1, round(m / nt))),
             "%d ticks for values up to %r", k, m)
  plt.close("all")
  return repr(lab)


def gen_axes(tier):
  for nc in (2, 3, 5, 8) if tier == "quick" else range(2, 17):
    for d in ((.5, 5.), (1., 2.)):
      for s in ((0., .01), (.002, .02)):
        for ns in (1, 2):
          yield [nc, d, s, ns]


def run_axes(case, st):
  """The image of a finished benchmark"""
  nc, d, s, ns = case
  q = np.arange(nc) / (nc - 1)
  dur = d[0] * (d[1] / d[0])**q
  stri = (1 + s[0]) * ((1 + s[1]) / (1 + s[0]))**q - 1
  methods = list(perf.convolutions)
  data, e = [], np.zeros((nc, nc))
  for i, j in itertools.product(range(nc), repeat=2):
    t = {}
    for k, m in enumerate(methods):
      t[m] = 1 + (7 * i + 5 * j * j + 3 * k * (i + 1)) % 13
      for n in range(ns):
        data.append(dict(duration_i=i, stride_i=j, method_i=k, method=m,
                         duration=dur[i], stride=stri[j],
                         timeit=t[m] + (n * .5 if ns > 1 else 0)))
    add = .25 if ns > 1 else 0
    e[i, j] = (min(v for m, v in t.items() if m != "strided") +
               add) / (t["strided"] + add)
  cwd, tmp = os.getcwd(), tempfile.mkdtemp(prefix="vp_c33_")
  os.chdir(tmp)
  shown = []
  try:
    pd.DataFrame(data).to_csv("b.csv")
    plt.close("all")
    with mock.patch.object(plt, "show", lambda *a, **k: shown.append(plt.gcf())), (
        mock.patch.object(perf.timeit, "Timer", side_effect=AssertionError)
    ), contextlib.redirect_stderr(io.StringIO()):
      perf.main("-c", str(nc), "-n", str(ns), "-O", "b.csv", "--duration-min",
                str(d[0]), "--duration-max", str(d[1]), "--stride-min",
                str(s[0]), "--stride-max", str(s[1]), "-l", "CRITICAL")
  finally:
    os.chdir(cwd)
    shutil.rmtree(tmp)
  ns_args = types.SimpleNamespace(n_cases=nc, n_samples=ns)
  df = pd.DataFrame(data)
  for m in methods:
    x = np.zeros((nc, nc))
    for r in data:
      if r["method"] == m:
        x[r["duration_i"], r["stride_i"]] += r["timeit"] / ns
    vp.check_close(perf.times_matrix(df, m, ns_args, normalize=False), x,
                   "times of %s" % m)
    vp.check_close(perf.times_matrix(df, m, ns_args),
                   x / np.reshape(dur, (-1, 1)), "relative times of %s" % m)
  vp.check(len(shown) == 1, "%d images", len(shown))
  ax = shown[0].axes[0]
  vp.check("stride" in ax.get_xlabel() and "duration" in ax.get_ylabel(),
           "labels %r, %r", ax.get_xlabel(), ax.get_ylabel())
  lg = np.log2(e)
  top = lg.max() if lg.max() > 0 else 1
  low = -lg.min() if lg.min() < 0 else 1
  vp.check_close(np.array(ax.images[0].get_array()),
                 np.where(lg > 0, lg / top, lg / low), "image")
  for at, lb, v, tol in (
      (ax.get_xticks(), ax.get_xticklabels(),
       lambda u: (1 + s[0]) * ((1 + s[1]) / (1 + s[0]))**u - 1, .051),
      (ax.get_yticks(), ax.get_yticklabels(),
       lambda u: d[0] * (d[1] / d[0])**u, .51)):
    vp.check(len(at) == len(lb) > 0, "ticks %r", at)
    for p, t in zip(at, lb):
      x = 1000 * v(p / (nc - 1))
      vp.check(abs(float(t.get_text()) - x) < tol, "%r at position %r, not %r",
               t.get_text(), p, x)
      st.count("ticks")
  plt.close("all")
  return (nc, d, s, [t.get_text() for t in lb])


# --- Report of the decisions -----------------------------------------------------------
FEATS = (["seed"] + [k + str(i) for k in "afd" for i in range(3)] +
         [k + s for k in "afd" for s in ("_delta", "_avg", "_log_delta")] +
         ["p_delta", "p_avg"])


def feature(df, k):
  """Values of a feature, from the parameters"""
  if k in df:
    return np.array(df[k], float)
  x, y = (np.array(df[k[0] + str(i)], float) for i in range(2))
  if "_log" in k:
    x, y = np.log(x), np.log(y)
  return abs(x - y) if k.endswith("_delta") else (x + y) / 2


def symbol(k):
  if k == "seed":
    return "$\\mathrm{seed}$"
  s = {"f": "\\nu", "p": "\\phi"}.get(k[0], k[0])
  if k[1:].isdigit():
    return f"${s}_{{{int(k[1:]) + 1}}}$"
  if "_log" in k:
    s = f"\\log{{{s}}}"
  return ("$\\Delta{%s}$" if k.endswith("_delta") else "$\\overline{%s}$") % s


def gen_dec(tier):
  for n in (2, 3, 5) if tier == "quick" else range(1, 10):
    for tp in range(n + 1):
      for fp in range(n + 1):
        if tier != "quick" or n < 5 or (tp in (0, 2, 5) and fp in (0, 3, 5)):
          yield [n, tp, fp, n > 1 and (tp * 3 + fp) % (5 if n < 5 else 3) == 0]


def bars(ax):
  """label -> [(left, width, height)] of the bars of a plot"""
  hs, ls = ax.get_legend_handles_labels()
  vp.check(len(ls) == len(set(ls)) == len(ax.containers), "labels %r", ls)
  return {l: [(p.get_x(), p.get_width(), p.get_height())
              for c in ax.containers if c is h or h in c.patches
              for p in c.patches] for h, l in zip(hs, ls)}


def run_dec(case, st):
  """Precision and recall of the decisions, importance of the parameters, and
  distribution of each of them conditioned on the decisions"""
  n, tp, fp, draw = case
  beat = np.array([(i * 2 % n + i * 2 // n) % n < tp if n % 2 == 0 else
                   (i * 2) % n < tp for i in range(n)])
  single = np.arange(n)[::-1] < fp
  tp = int(beat.sum())
  df = pd.DataFrame({"seed": np.arange(n), "beat": beat, "single": single})
  for j, k in enumerate("afdp"):
    for i in range(3):
      u = np.array([(7 * m * m + 3 * m * j + 5 * i + 2) % 11 for m in range(n)])
      df[k + str(i)] = (u + 1.) * (100 if k == "f" else .1)
  imp = pd.DataFrame({
      k: [((13 * i + 7 * t + 3 * m) % 23 + m / 50) / 30 for m in range(6)
          for t in range(2)] for i, k in enumerate(FEATS)
  })
  imp["target"] = ["beat", "single"] * 6
  cwd, tmp = os.getcwd(), tempfile.mkdtemp(prefix="vp_c33_")
  os.chdir(tmp)
  seen = {}
  before = df.copy()

  def shot(fname, *args, **kwargs):
    fg = plt.gcf()
    a, b = fg.axes
    if "importance" in fname:
      seen[fname] = [(x.get_title(), [t.get_text() for t in x.get_yticklabels()],
                      [np.sort(l.get_xdata())[[0, -1]].tolist() for l in x.lines
                       if len(set(np.ravel(l.get_ydata()))) == 1])
                     for x in (a, b)]
    else:
      seen[fname] = (bars(a), bars(b), a.get_title(), b.get_title(),
                     a.get_xlabel(), b.get_xlabel(),
                     a.get_legend().get_title().get_text(),
                     b.get_legend().get_title().get_text())

  class Enough(Exception):
    """The images are not of interest"""

  try:
    imp.to_csv("o_errors_feature_importance.csv")
    args = argparse.Namespace(df=df, output=os.path.join(".", "o"), tqdm=False)
    plt.close("all")
    with contextlib.ExitStack() as es:
      es.enter_context(np.errstate(all="ignore"))
      es.enter_context(mock.patch.object(plt, "savefig", shot))
      es.enter_context(contextlib.redirect_stderr(io.StringIO()))
      if not draw:
        es.enter_context(mock.patch.object(plt, "subplots", side_effect=Enough))
      try:
        ev.decision_report(args)
      except Enough:
        pass
    with open("o_report.txt", encoding="utf-8") as f:
      text = f.read()
  finally:
    os.chdir(cwd)
    shutil.rmtree(tmp)
  # report
  row = {r.split()[0]: [float(v) for v in r.split()[1:]]
         for r in text.splitlines()[1:] if r.strip() and r.split()[0] in
         ("True", "False", "accuracy")}
  div = lambda x, y: x / y if y else 0.
  for name, hit, said in (("True", tp, tp + fp),
                          ("False", n - fp, 2 * n - tp - fp)):
    p, r = div(hit, said), hit / n
    e = [p, r, div(2 * p * r, p + r), n]
    vp.check(len(row[name]) == 4 and all(
        abs(x - y) < .0051 for x, y in zip(row[name], e)),
             "decisions %r: %r instead of %r", name, row[name], e)
  vp.check(abs(row["accuracy"][0] - (tp + n - fp) / (2 * n)) < .0051,
           "accuracy %r", row["accuracy"])
  vp.check(df[list(before)].equals(before), "the results have been modified")
  st.count("reports")
  if not draw:
    return repr(case)
  # images
  name = lambda f: os.path.basename(f)[:-4]
  pics = {name(f): v for f, v in seen.items()}
  vp.check(sorted(pics) == sorted(["o_errors_feature_importance"] + [
      f"{t}_{k}" for t in ("beat", "single") for k in FEATS
  ]), "images %r", sorted(pics))
  for (title, labels, _), t in zip(pics.pop("o_errors_feature_importance"),
                                   ("beat", "single")):
    w = imp[imp["target"] == t]
    q = {symbol(k): np.quantile(w[k], .05) for k in FEATS}
    vp.check(title == t and sorted(labels) == sorted(q), "importance of %r: %r",
             title, labels)
    v = [q[l] for l in labels]
    vp.check(v == sorted(v), "order of the importances %r", labels)
  for pic, (ha, hb, ta, tb, xa, xb, la, lb) in pics.items():
    t, k = pic.split("_", 1)
    vp.check((ta, tb) == ("Histogram", "Posterior") and xa == xb == symbol(k),
             "%s: titles %r, labels %r", pic, (ta, tb), (xa, xb))
    vp.check(la == lb == {"beat": "Positive", "single": "Negative"}[t],
             "%s: legend %r, %r", pic, la, lb)
    x = feature(df, k)
    # decisions are right if the label is True
    ok = beat if t == "beat" else ~single
    vp.check(sorted(ha) == sorted(hb) == sorted({str(v) for v in ok}),
             "%s: groups %r and %r of %r", pic, list(ha), list(hb), ok)
    edges = np.histogram_bin_edges(x, 10)
    tot = np.histogram(x, edges)[0]
    for l in ha:
      c = np.histogram(x[ok == (l == "True")], edges)[0]
      vp.check([h for _, _, h in ha[l]] == c.tolist(), "%s: histogram %r of %r "
               "instead of %r", pic, ha[l], l, c)
      got = np.array([h for _, _, h in hb[l]])
      vp.check(len(got) == len(c) and all(
          abs(g - a / b) < 1e-9 if b else not g > 0
          for g, a, b in zip(got, c, tot)),
               "%s: fractions %r of %r, with %r of %r", pic, got, l, c, tot)
      mid = np.array([a + w / 2 for a, w, _ in hb[l]])
      vp.check(np.all(np.diff(mid) > 0) and np.all(
          abs(mid - (edges[1:] + edges[:-1]) / 2) <= np.diff(edges)),
               "%s: position of the bars of %r", pic, l)
      st.count("bars")
  plt.close("all")
  return repr((case, len(pics)))


if __name__ == "__main__":
  vp.main(
      "C33", [("tables", gen_tab, run_tab, {"chunk": 8}),
              ("tests and report", gen_rep, run_rep, {"chunk": 1}),
              ("speed-up", gen_img, run_img, {"chunk": 8}),
              ("decisions", gen_dec, run_dec, {"chunk": 2}),
              ("axes", gen_axes, run_axes, {"chunk": 2})],
      level="exploration",
      rule="every ordering of the results from a family of permutations x "
      "critical distance or decision matrix x format of the intervals; every "
      "matrix of speed-ups over a set of levels; every size and range of the "
      "benchmark of a grid",
      bounds={"quick": "3 free speed-ups up to symmetry, up to 8 cases per axis",
              "thorough": "3 free speed-ups, up to 16 cases per axis"},
      assumptions=["the comparisons of autorank itself are taken as they are"])

"""C31: release and notebook tools preserve what they are given"""
import ast
import contextlib
import copy
import importlib.util
import io
import itertools
import json
import logging
import os
import re
import shutil
import sys
import tempfile
import tokenize
from unittest import mock

import nbformat
import vp
from crash import crash_states, disk
from yapf.yapflib import yapf_api


def load(*path):
  p = os.path.join(vp.REPO, "scripts", *path)
  spec = importlib.util.spec_from_file_location("vp_" + path[-1][:-3], p)
  m = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(m)
  return m


ynb = load("utils", "yapf_nbformat.py")
make = load("utils", "make_changelog.py")
extract = load("utils", "extract_changelog.py")
STYLE = os.path.join(vp.REPO, ".style.yapf")


@contextlib.contextmanager
def scratch():
  old = os.getcwd()
  d = tempfile.mkdtemp(prefix="vp_c31_")
  os.chdir(d)
  try:
    yield d
  finally:
    os.chdir(old)
    shutil.rmtree(d)


# --- Meaning of a cell -------------------------------------------------------------------
def at_statement(prefix):
  """Can a statement start after these lines?"""
  if prefix.rstrip(" \t\n").endswith("\\") and not prefix.endswith("\n\n"):
    # continuation of the last line
    if prefix.rstrip("\n").endswith("\\"):
      return False
  depth = 0
  try:
    for t in tokenize.generate_tokens(io.StringIO(prefix + "\n").readline):
      if t.type == tokenize.OP:
        depth += (t.string in "([{") - (t.string in ")]}")
  except tokenize.TokenError:
    return False
  except IndentationError:
    pass
  return depth == 0


def split_commands(src):
  """Commands of a cell, and its Python code with a call in place of each"""
  commands, lines, plain = [], [], ""
  for l in src.split("\n"):
    body = l.lstrip(" \t")
    if body[:1] in ("!", "%") and at_statement(plain):
      commands.append(body.rstrip())
      l = l[:len(l) - len(body)] + "__cmd__(%d)" % len(commands)
    lines.append(l)
    plain += l + "\n"
  return commands, "\n".join(lines)


def comments(code):
  return [t.string.rstrip() for t in
          tokenize.generate_tokens(io.StringIO(code + "\n").readline)
          if t.type == tokenize.COMMENT]


def meaning(src):
  """Commands, syntax tree, comments; None if it is not Python"""
  commands, code = split_commands(src)
  try:
    return commands, ast.dump(ast.parse(code)), comments(code)
  except (SyntaxError, ValueError):
    return None


# --- Cells ---------------------------------------------------------------------------------
PIECES = [
    "x=1",
    "y =  [1,2]  # why",
    "!ls  -la",
    "%timeit  f( x )   ",
    "",
    "# only  a comment",
    "if x :\n    !ls  {x}\n    y=2",
    "for i in x:\n\t%foo\n\ty=i",
    "def f( a ):\n    '''Doc\n    %s  !d\n    '''\n    %foo\n    return 'a'",
    "s='''a\n!b  c\n%d'''",
    "s = '''a\n  %b''' ;t=2",
    "z=(1\n %2)",
    "x = (",
    "x = = 1",
    "t='a\x0cb'",
    "t=  'a\u2028b'",
    "!ls \\\n  -a",
    "#%% cell",
    "class A:\n  b= 1\n  !pwd",
    "x = 1 \\\n  % y",
    "    %magic",
    "import os",
    "pass",
    "pass  # %d or !x",
]
FIRST = [
    "%%bash", "%%html", "%%time", "%%capture out", "%%timeit -n 1",
    "%%writefile  a.py", "%%javascript", "# yapf: ignore", "x=1  # yapf: ignore",
    " # yapf: disable", "%%prun", "%%latex", "%%script python"
]
PYTHON_MAGICS = ("%%time", "%%timeit", "%%capture", "%%prun")
STYLES = [
    None, "pep8", "{based_on_style: google, spaces_before_comment: 4}",
    "{based_on_style: pep8, spaces_before_comment: '15, 20', use_tabs: True}"
]


def notebook(sources):
  nb = nbformat.v4.new_notebook(metadata={"kernelspec": {
      "name": "python3", "display_name": "P", "language": "python"}})
  for i, s in enumerate(sources):
    c = nbformat.v4.new_code_cell(
        s, id="c%d" % i, execution_count=i, metadata={"tags": ["t%d" % i]},
        outputs=[nbformat.v4.new_output("stream", text="x=1\n!ls\n")])
    nb.cells.append(c)
  return nb


def write(nb, path):
  with open(path, "w", encoding="utf-8") as f:
    json.dump(nb, f)


def source(path):
  with open(path, encoding="utf-8") as f:
    return json.load(f)


def join(s):
  return s if isinstance(s, str) else "".join(s)


def cells(nb):
  return [join(c["source"]) for c in nb["cells"]]


def rest(nb):
  nb = json.loads(json.dumps(nb))
  for c in nb["cells"]:
    del c["source"]
    for o in c.get("outputs", ()):
      if "text" in o:
        o["text"] = join(o["text"])
  return nb


def style_of(style):
  return STYLE if style is None else style


def fmt(paths, style=None, *opts):
  argv = [*paths, *opts, "--log-level", "CRITICAL"]
  if style is not None:
    argv += ["--style", style]
  ynb.main.__wrapped__(*argv) if hasattr(ynb.main, "__wrapped__") else ynb.main(
      *argv)


def ignored(src):
  first = src.split("\n", 1)[0]
  m = src.lstrip().split(None, 1)
  return "# yapf: ignore" in first or (bool(m) and m[0].startswith("%%") and
                                       m[0] not in PYTHON_MAGICS)


def check_cell(old, new, style, tag):
  vp.check("escaped-for-yapf" not in new, "%r becomes %r", old, new)
  if ignored(old) or not old.strip():
    vp.check(new == old, "ignored cell %r becomes %r", old, new)
    return "ignored"
  a, b = meaning(old), meaning(new)
  inner = [l for l in old.split("\n") if l.lstrip()[:1] in ("!", "%")]
  misread = a is not None and len(inner) > len(a[0])
  if a is None or misread and re.search(r"\n# yapf:\d+:", new):
    if new.rstrip("\n") != old.rstrip("\n"):
      vp.check(tag, "%r, which is not Python, becomes %r", old, new)
      i = new.rfind("\n# yapf:")
      vp.check(i >= 0 and "\n" not in new[i + 1:] and new[:i].rstrip("\n") ==
               old.rstrip("\n"), "tagged %r becomes %r", old, new)
      return "tagged"
    return "error"
  vp.check(a == b, "%r becomes %r, with commands, code or comments %r instead "
           "of %r", old, new, b, a)
  # formatted as the same code without commands
  if misread and new.rstrip("\n") == old.rstrip("\n"):
    # similar to a command, in the middle of a statement
    return "left"
  if not a[0]:
    f = yapf_api.FormatCode(old, style_config=style_of(style))[0]
    vp.check(new.rstrip("\n") == f.rstrip("\n"), "%r becomes %r instead of %r", old, new, f)
    return "code"
  plain = re.sub(r"__cmd__\((\d+)\)", r"pass  # __cmd__(\1)",
                 split_commands(old)[1])
  f = yapf_api.FormatCode(plain, style_config=style_of(style))[0].rstrip("\n")
  g = re.sub(r"pass\s+# __cmd__\((\d+)\)",
             lambda m: a[0][int(m.group(1)) - 1], f)
  vp.check([l.rstrip() for l in new.rstrip("\n").split("\n")] ==
           [l.rstrip() for l in g.split("\n")],
           "%r becomes %r instead of %r", old, new, g)
  return "commands"


def gen_cells(tier):
  n = 2 if tier == "quick" else 3
  for style in range(len(STYLES)):
    for tag in (False, True):
      for k in range(n + 1):
        if k == 3 and (tag or style):
          continue
        for c in itertools.product(range(len(PIECES)), repeat=max(k - 1, 0)):
          yield [style, tag, k, list(c)]
  if tier == "quick":
    for a in range(len(PIECES)):
      yield [0, False, 3, [2, a]]


def run_cells(case, st):
  """All the cells with these pieces, in one notebook"""
  style, tag, k, head = case
  style = STYLES[style]
  srcs = []
  tails = [[p] for p in PIECES] if k else [[]]
  for t in tails:
    body = [PIECES[i] for i in head] + t
    srcs.append("\n".join(body))
    if k <= 1:
      srcs.append("\n".join(body + [""]))
      srcs.extend("\n".join([f] + body) for f in FIRST)
      srcs.extend("\n".join(["", " ", f] + body) for f in FIRST)
  with scratch():
    nb = notebook(srcs)
    write(nb, "a.ipynb")
    fmt(["a.ipynb"], style, *(["--tag-errors"] if tag else []))
    out = source("a.ipynb")
    vp.check(rest(out) == rest(nb), "other contents of the notebook modified")
    got = cells(out)
    vp.check(len(got) == len(srcs), "%d cells become %d", len(srcs), len(got))
    for a, b in zip(srcs, got):
      st.outcome((case, check_cell(a, b, style, tag), b))
      st.transitions += 1
    # formatting again changes nothing
    with open("a.ipynb", "rb") as f:
      raw = f.read()
    fmt(["a.ipynb"], style, *(["--tag-errors"] if tag else []))
    again = cells(source("a.ipynb"))
    for a, b, c in zip(srcs, got, again):
      if meaning(a) is not None and not yapf_stable(a, style):
        continue
      if tag and b != c:
        # the position of an error may change, but the same tag is never repeated
        t = [l for l in c.split("\n") if re.match(r"# yapf:\d+:", l)]
        vp.check(c.startswith(b) and len(set(t)) == len(t) > 0,
                 "%r is formatted as %r, and then as %r", a, b, c)
        continue
      vp.check(b == c, "%r is formatted as %r, and then as %r", a, b, c)
  st.traces += 1
  st.states += len(srcs)


def yapf_stable(src, style):
  """Does yapf itself settle at once?"""
  code = split_commands(src)[1]
  try:
    f = yapf_api.FormatCode(code, style_config=style_of(style))[0]
    return yapf_api.FormatCode(f, style_config=style_of(style))[0] == f
  except yapf_api.errors.YapfError:
    return False


# --- Notebooks ----------------------------------------------------------------------------
KINDS = {
    "dirty": ("code", "x=1\n!ls  a"),
    "clean": ("code", "x = 1"),
    "error": ("code", "x = ("),
    "ignored": ("code", "# yapf: ignore\nx=1"),
    "shell": ("code", "%%bash\nls  -l"),
    "text": ("markdown", "x=1\n!ls"),
    "raw": ("raw", "x=1"),
    "blank": ("code", " \n"),
    "empty": ("code", ""),
}


def build(kinds):
  nb = notebook([])
  for i, k in enumerate(kinds):
    t, s = KINDS[k]
    new = {"code": nbformat.v4.new_code_cell,
           "markdown": nbformat.v4.new_markdown_cell,
           "raw": nbformat.v4.new_raw_cell}[t]
    nb.cells.append(new(s, id="i%d" % i))
  return nb


def expected(k):
  return "x = 1\n!ls  a" if k == "dirty" else KINDS[k][1]


def gen_nb(tier):
  n = 3 if tier == "quick" else 4
  for k in range(n + 1):
    for c in itertools.product(sorted(KINDS), repeat=k):
      yield list(c)


def run_nb(kinds, st):
  """Which cells are modified, what is written, what is answered"""
  with scratch():
    nb = build(kinds)
    for dry, how in itertools.product((False, True), ("call", "script")):
      write(nb, "a.ipynb")
      with open("a.ipynb", "rb") as f:
        raw = f.read()
      before = os.stat("a.ipynb").st_mtime_ns
      if how == "call":
        r = ynb.format_nb("a.ipynb", dry_run=dry, style=STYLE)
        vp.check(r is ("dirty" in kinds), "%r is answered for cells %r", r, kinds)
      else:
        fmt(["a.ipynb"], None, *(["--dry-run"] if dry else []))
      vp.check(os.listdir(".") == ["a.ipynb"], "files %r", os.listdir("."))
      with open("a.ipynb", "rb") as f:
        now = f.read()
      if dry or "dirty" not in kinds:
        vp.check(now == raw and os.stat("a.ipynb").st_mtime_ns == before,
                 "notebook written with dry run = %r and cells %r", dry, kinds)
      else:
        out = source("a.ipynb")
        vp.check(rest(out) == rest(nb), "other contents modified")
        vp.check(cells(out) == [expected(k) for k in kinds],
                 "cells %r become %r", kinds, cells(out))
  st.traces += 1
  st.states += 4
  st.outcome(kinds)


def gen_many(tier):
  for k in (0, 1, 2, 3):
    for c in itertools.product(("dirty", "clean", "tab", "error"), repeat=k):
      for dry in (False, True):
        yield [list(c), dry]


def run_many(case, st):
  """Several notebooks at once"""
  kinds, dry = case
  with scratch():
    for i, k in enumerate(kinds):
      write(build(["dirty", "text"] if k == "tab" else [k]), "%d.ipynb" % i)
    old = [source("%d.ipynb" % i) for i in range(len(kinds))]
    fmt(["%d.ipynb" % i for i in range(len(kinds))], None,
        *(["--dry-run"] if dry else []))
    for i, k in enumerate(kinds):
      got = cells(source("%d.ipynb" % i))
      want = cells(old[i]) if dry else [
          expected("dirty" if k == "tab" else k)] + ["x=1\n!ls"] * (k == "tab")
      vp.check(got == want, "notebook %d of %r becomes %r", i, kinds, got)
  st.traces += 1
  st.outcome(case)


# --- Crash points and failures ----------------------------------------------------------------
def gen_nbcrash(tier):
  for kinds in (["dirty"], ["text", "dirty"], ["error", "dirty", "dirty"]):
    yield kinds


def run_nbcrash(kinds, st):
  """A notebook is never lost or left incomplete"""
  with scratch() as d:
    nb = build(kinds)
    write(nb, "a.ipynb")
    old = cells(source("a.ipynb"))
    states = crash_states(
        lambda: ynb.format_nb("a.ipynb", style=STYLE), d, st, full=True)
    new = cells(source("a.ipynb"))
  for s in states:
    vp.check("a.ipynb" in s, "notebook lost by a crash")
    try:
      c = cells(json.loads(s["a.ipynb"][1].decode("utf-8")))
    except ValueError:
      c = None
    vp.check(c in (old, new), "notebook %r left by a crash", s["a.ipynb"][1][:60])
    st.states += 1
  st.outcome((kinds, len(states)))
  st.traces += 1


class Full(io.IOBase):
  """File on a full disk"""


def gen_fail(tier):
  for kinds in (["dirty"], ["text", "dirty"]):
    for n in (0, 1, 2, 5, 10, 10**9):
      for errno in (28, 5):
        yield [kinds, n, errno]
  yield ["surrogate", 0, 0]


def run_fail(case, st):
  """Failures while writing"""
  kinds, n, errno = case
  with scratch():
    nb = build(["dirty"] if kinds == "surrogate" else kinds)
    if kinds == "surrogate":
      nb.cells[0]["source"] += "  # \ud800"
    write(nb, "a.ipynb")
    old = source("a.ipynb")
    real = open
    left = [n]

    def opener(f, mode="r", *a, **k):
      h = real(f, mode, *a, **k)
      if not set(mode) & set("wax+") or kinds == "surrogate":
        return h
      w = h.write

      def wr(s):
        if len(s) > left[0]:
          w(s[:left[0]])
          h.flush()
          left[0] = 0
          raise OSError(errno, "failure")
        left[0] -= len(s)
        return w(s)

      m = mock.MagicMock(wraps=h)
      m.write = wr
      m.__enter__ = lambda s: m
      m.__exit__ = lambda s, *e: h.close()
      return m

    raised = None
    with mock.patch("builtins.open", opener), mock.patch("io.open", opener):
      try:
        ynb.format_nb("a.ipynb", style=STYLE)
      except (OSError, UnicodeError) as e:
        raised = e
    try:
      now = source("a.ipynb")
    except ValueError:
      now = None
    vp.check(now is not None, "notebook lost by %r", raised)
    if raised is not None:
      vp.check(now == old, "notebook modified by %r", raised)
    vp.check(kinds == "surrogate" or n < 10**9 or raised is None,
             "writing fails with %r", raised)
    vp.check(n == 10**9 or kinds == "surrogate" or raised is not None,
             "failure not reported")
  st.traces += 1
  st.outcome((case, repr(raised)))


# --- Changelog ---------------------------------------------------------------------------------
VERSIONS = ["1", "1_0", "1_2", "1_10", "1_9", "2", "2_0_1", "10", "1_2_3", "1_2_0_1"]
OTHERS = ["README.md", "v1_0rc1.md", "notes.md", "v.md", "v1__2.md", "v1.2.md"]


def key(v):
  return tuple(int(i) for i in v.split("_"))


def gen_make(tier):
  n = 3 if tier == "quick" else 4
  for k in range(n + 1):
    for c in itertools.permutations(range(len(VERSIONS)), k):
      yield [list(c), len(c) % 3, None]
  for a in range(len(OTHERS)):
    for b in range(len(OTHERS)):
      for c in ((), (1,), (3, 4)):
        yield [list(c), 0, [a, b]]


def run_make(case, st):
  """Table of contents of the changelog"""
  vs, place, others = case
  names = ["v%s.md" % VERSIONS[i] for i in vs]
  listed = list(names)
  if others is not None:
    listed = [OTHERS[others[0]]] + listed
    if others[1] != others[0]:
      listed.append(OTHERS[others[1]])
  out, rel = [("docs/c.rst", "../in"), ("c.rst", "in"), ("a/b/c.rst", "../../in")][place]
  with scratch():
    os.makedirs("in")
    if os.path.dirname(out):
      os.makedirs(os.path.dirname(out))
    for i in listed:
      with open(os.path.join("in", i), "w", encoding="utf-8") as f:
        f.write("## title\n")
    want = ["Changelog", "=========", ""] + [
        ".. mdinclude:: %s/%s" % (rel, n) for n in sorted(
            names, key=lambda n: key(n[1:-3]), reverse=True)]
    for dry in (True, False):
      shown = io.StringIO()
      with mock.patch.object(os, "listdir", lambda p: list(listed)), \
          contextlib.redirect_stdout(shown):
        make.main("-I", "in", "-O", out, "-l", "CRITICAL",
                  *(["--dry-run"] if dry else []))
      if dry:
        vp.check(not os.path.exists(out), "dry run writes a file")
        text = shown.getvalue()
      else:
        with open(out, encoding="utf-8") as f:
          text = f.read()
        vp.check(text.endswith("\n"), "no newline at the end of file")
      vp.check(text.rstrip("\n").split("\n") == "\n".join(want).rstrip("\n").split("\n"),
               "changelog of %r: %r", listed, text)
  st.traces += 1
  st.states += 2
  st.outcome((vs, others))


SUFFIXES = ["", "rc1", "-beta", "+local.3", ".dev1", ".post2", "a0", " "]
BODIES = ["## v1\n", "## v1\n\n### Features\ntext\n", "## v1\ntext without newline",
          "## v1\n## v1\n\n\n", "", "title\r\ntext\r\n", "# é\nunicode \u2028 é\n"]


def gen_extract(tier):
  for v in range(len(VERSIONS)):
    for s in range(len(SUFFIXES)):
      for dots in (False, True):
        for b in range(len(BODIES)):
          yield [v, s, dots, b]


def run_extract(case, st):
  """Changes of one version"""
  v, s, dots, b = case
  ver = VERSIONS[v].replace("_", "." if dots else "_") + SUFFIXES[s]
  with scratch():
    os.makedirs("in")
    for i, n in enumerate(VERSIONS):
      with open("in/v%s.md" % n, "w", encoding="utf-8", newline="") as f:
        f.write(BODIES[b] if i == v else "wrong\nfile\n")
    before = disk("in")
    body = BODIES[b].replace("\r\n", "\n")
    want = body.partition("\n")[2]
    shown = io.StringIO()
    with contextlib.redirect_stdout(shown):
      extract.main("--version", ver, "--dir", "in")
    vp.check(shown.getvalue() == want, "changes of %s printed: %r instead of %r",
             ver, shown.getvalue(), want)
    shown = io.StringIO()
    with contextlib.redirect_stdout(shown):
      extract.main("--version", ver, "--dir", "in", "--output", "out.md")
    with open("out.md", encoding="utf-8") as f:
      got = f.read()
    vp.check(got == want and not shown.getvalue(),
             "changes of %s written: %r instead of %r", ver, got, want)
    vp.check(disk("in") == before, "changelog modified")
  st.traces += 1
  st.outcome(case)


def gen_release(tier):
  yield ["release"]


def run_release(case, st):
  """The files of this very package"""
  import sample
  shown = io.StringIO()
  with contextlib.redirect_stdout(shown):
    extract.main("--dir", os.path.join(vp.REPO, "changelog"))
  with open(os.path.join(vp.REPO, "changelog", "v%s.md" %
                         sample.__version__.replace(".", "_")),
            encoding="utf-8") as f:
    vp.check(shown.getvalue() == f.read().partition("\n")[2],
             "changes of this version: %r", shown.getvalue())
  shown = io.StringIO()
  with contextlib.redirect_stdout(shown):
    make.main("--dry-run", "-l", "CRITICAL")
  lines = [l for l in shown.getvalue().split("\n") if "mdinclude" in l]
  docs = os.path.join(vp.REPO, "docs", "source")
  files = [os.path.normpath(os.path.join(docs, l.split(":: ")[1])) for l in lines]
  want = sorted(os.listdir(os.path.join(vp.REPO, "changelog")),
                key=lambda n: key(n[1:-3]), reverse=True)
  vp.check([os.path.basename(f) for f in files] == want and
           all(os.path.isfile(f) for f in files), "changelog %r", files)
  with scratch():
    for n in sorted(os.listdir(os.path.join(vp.REPO, "notebooks"))):
      if n.endswith(".ipynb"):
        shutil.copy(os.path.join(vp.REPO, "notebooks", n), n)
        old = source(n)
        fmt([n])
        new = source(n)
        vp.check(rest(old) == rest(new), "%s modified", n)
        for c, a, b in zip(old["cells"], cells(old), cells(new)):
          if c["cell_type"] == "code":
            vp.check(meaning(a) is not None and meaning(a) == meaning(b), "cell of %s: %r becomes %r",
                     n, a, b)
          else:
            vp.check(a == b, "text of %s modified", n)
          st.transitions += 1
  st.traces += 1
  st.outcome(len(files))


if __name__ == "__main__":
  logging.disable(logging.CRITICAL)
  vp.main(
      "C31", [("cells", gen_cells, run_cells, {"chunk": 2}),
              ("notebooks", gen_nb, run_nb, {"chunk": 16}),
              ("several", gen_many, run_many, {"chunk": 8}),
              ("crashes", gen_nbcrash, run_nbcrash, {"chunk": 1}),
              ("failures", gen_fail, run_fail, {"chunk": 4}),
              ("changelog", gen_make, run_make, {"chunk": 32}),
              ("version", gen_extract, run_extract, {"chunk": 32}),
              ("package", gen_release, run_release, {"chunk": 1})],
      level="fault_enumeration",
      rule="every cell made of pieces of code, commands, magics, strings and "
      "errors, in four styles; every notebook of small cells of all kinds; every "
      "crash point and write failure; every set of versions in every order of the "
      "directory",
      bounds={"quick": "2 pieces of 23, 3 cells, 3 versions of 10",
              "thorough": "3 pieces, 4 cells, 4 versions"},
      assumptions=["cells with a magic of another language are not Python",
                   "the styles do not join or reorder statements"])

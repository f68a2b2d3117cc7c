"""Enumeration of what a process that dies leaves on the disk"""
import os
import sys


def disk(d):
  """Content of a directory: {path: (inode, bytes)}, directories as None"""
  out = {}
  for base, dirs, files in os.walk(d):
    for n in dirs:
      out[os.path.relpath(os.path.join(base, n), d)] = None
    for n in files:
      p = os.path.join(base, n)
      with open(p, "rb") as f:
        out[os.path.relpath(p, d)] = (os.fstat(f.fileno()).st_ino, f.read())
  return out


def crash_states(fn, d, st, full=True):
  """Run fn and list everything that can be found in the directory after a crash.

  A process that dies leaves what it had handed to the kernel: the content of the
  directory is observed at every event of the Python code (lines, calls, returns,
  in any module), and when a file has been written to in place, every state in
  which only a part of the new bytes got there is added"""
  states = [disk(d)]
  busy = [False]

  def note():
    s = disk(d)
    if s != states[-1]:
      states.append(s)

  def trace(frame, event, arg):
    if not busy[0]:
      busy[0] = True
      st.count("crash points")
      note()
      busy[0] = False
    return trace

  old = sys.gettrace()
  sys.settrace(trace)
  try:
    fn()
  finally:
    sys.settrace(old)
  note()
  out = [states[0]]
  for a, b in zip(states, states[1:]):
    for k, v in b.items():
      u = a.get(k)
      if v is None:
        continue
      # written in place: the bytes may have reached the disk one piece at a time
      keep = u[1] if u is not None and u[0] == v[0] and v[1].startswith(u[1]) else b""
      moved = u is None and v in a.values()
      if u == v or moved or u is not None and u[0] != v[0] and v in a.values():
        continue
      n = len(v[1]) - len(keep)
      step = 1 if full and n < 64 else max(1, n // 12)
      for i in range(0, n, step):
        out.append({**b, k: (v[0], v[1][:len(keep) + i])})
    out.append(b)
  return out


def restore(state, d):
  for k, v in sorted(state.items()):
    p = os.path.join(d, k)
    if v is None:
      os.makedirs(p, exist_ok=True)
    else:
      os.makedirs(os.path.dirname(p), exist_ok=True)
      with open(p, "wb") as f:
        f.write(v[1])

"""One analysis with real worker processes, in a fresh interpreter, after audio
has been played with the real backend (dummy device). One worker is delayed
before one of its requests for tasks.

Arguments (JSON): audio history, [worker, request] to delay or null, number of
workers. Prints the analysed modes"""
import json
import multiprocessing
import multiprocessing.queues
import os
import sys
import time

import numpy as np

DELAY = 2.


def instrument(delay):
  """Delay a request of a worker"""
  if delay is None:
    return
  get = multiprocessing.queues.SimpleQueue.get
  parent, n = os.getpid(), [0]

  def get_(self):
    if os.getpid() != parent:
      name = multiprocessing.current_process().name
      if "PoolWorker" in name:
        first = int(name.rsplit("-", 1)[-1]) % 2
        if [first, n[0]] == delay:
          time.sleep(DELAY)
        n[0] += 1
    return get(self)

  multiprocessing.queues.SimpleQueue.get = get_


def main():
  history, delay, jobs = json.loads(sys.argv[1])
  instrument(delay)
  from sample.sample import SAMPLE
  from sample.widgets import audio
  t = np.arange(600) / 1000
  x = sum(a * np.exp(-d * t) * np.sin(2 * np.pi * f * t)
          for f, a, d in ((110, .8, 3), (220, .5, 5), (330, .6, 4)))
  keep = []
  for op in history:
    if op == "play":
      keep.append(audio.TempAudio(x.astype(np.float32), 44100))
      keep[-1].play()
    else:
      audio.TempAudio.close_pygame()
  m = SAMPLE(sinusoidal__n=64, sinusoidal__w=np.blackman(64),
             sinusoidal__tracker__h=16, sinusoidal__tracker__fs=1000,
             sinusoidal__tracker__frequency_bounds=(5., 900.),
             sinusoidal__tracker__min_sine_dur=.05, sinusoidal__t=-90.,
             sinusoidal__tracker__peak_threshold=-66.)
  m.fit(x, n_jobs=jobs)
  print(json.dumps(np.asarray(m.param_matrix_).tolist()))


if __name__ == "__main__":
  main()

"""Concrete stage: replays and seeded contract runs on the real code."""
import importlib
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyver import loader  # pylint: disable=wrong-import-position
loader.use_repo()
from pyver import concrete, spec  # pylint: disable=wrong-import-position


def search(u, seed, n, budget, forced=()):
  rng = random.Random(f'{seed}:{u.name}')
  t0 = time.time()
  stats = dict(unit=u.name, runs=0, rejected=0, checked=0, failure=None,
               sample=None)
  queue = [(f, 0.0) for f in forced]
  queue += [(f, j) for f in forced for j in (1e-9, 1e-6, 1e-3, .05)
            for _ in range(12)]
  # partial forcing: keep some coordinates of a counterexample
  for f in forced:
    for _ in range(30):
      keys = [k for k in f if rng.random() < .6]
      queue.append(({k: f[k] for k in keys}, 0.0))
  i = 0
  while i < n + len(queue) and time.time() - t0 < budget:
    f, j = queue[i] if i < len(queue) else ({}, 0.0)
    i += 1
    r, V = concrete.run_once(u, rng, f, j, None if f else i - 1 - len(queue))
    stats['runs'] += 1
    if r == 'reject':
      stats['rejected'] += 1
      continue
    stats['checked'] += V.checked
    if r is not None:
      # keep only failures that reproduce from their recorded inputs
      r2, _ = concrete.run_once(u, random.Random(0), r['inputs'])
      if isinstance(r2, dict):
        r2['unit'] = u.name
        stats['failure'] = r2
        return stats
    elif stats['sample'] is None:
      stats['sample'] = {k: V.values[k] for k in list(V.values)[:12]}
  return stats


def main():
  job = json.load(open(sys.argv[1]))
  out = dict(units=[], error=None)
  try:
    importlib.import_module(f'props.{job["prop"].lower()}')
    units = {u.name: u for u in spec.UNITS}
    seed = job['seed']
    todo = []
    for name, u in units.items():
      if job.get('only') and name not in job['only']:
        continue
      todo.append(u)
    np_ = int(os.environ.get('VERIF_PROCS', '8')) if job.get('fork', True) else 1
    if job.get('fork', True) and len(todo) > 1:
      live = {}
      tmp = sys.argv[2] + '.d'
      os.makedirs(tmp, exist_ok=True)
      todo2 = list(todo)
      while todo2 or live:
        while todo2 and len(live) < np_:
          u = todo2.pop(0)
          path = os.path.join(tmp, u.name + '.json')
          pid = os.fork()
          if pid == 0:
            try:
              r = one(u, job, seed)
              with open(path, 'w') as f:
                json.dump(r, f, default=float)
            except BaseException:  # pylint: disable=broad-except
              traceback.print_exc()
              os._exit(1)
            os._exit(0)
          live[pid] = (u, path, time.time())
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
          for p, (u, path, t0) in list(live.items()):
            if time.time() - t0 > job.get('hard', 300):
              os.kill(p, 9)
          time.sleep(0.02)
          continue
        u, path, t0 = live.pop(pid)
        try:
          out['units'].append(json.load(open(path)))
        except (OSError, ValueError):
          out['units'].append(dict(unit=u.name, runs=0, rejected=0, checked=0,
                                   failure=None, sample=None, died=True))
    else:
      for u in todo:
        out['units'].append(one(u, job, seed))
  except Exception as e:  # pylint: disable=broad-except
    out['error'] = f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-3000:]
  with open(sys.argv[2], 'w') as f:
    json.dump(out, f, default=float)


def one(u, job, seed):
  j = job['units'].get(u.name, {})
  n = j.get('n', job['n'])
  n = min(n, u.opts.get('con_max', n)) if u.only != 'concrete' else (
      u.opts.get('con_n', n) * job.get('scale', 1))
  b = j.get('budget', job['budget'])
  if u.only == 'concrete':
    b = max(b, u.opts.get('con_budget', b)) * job.get('scale', 1)
  t0 = time.time()
  r = search(u, seed, n, b, j.get('forced', []))
  r['wall_s'] = round(time.time() - t0, 3)
  return r


if __name__ == '__main__':
  main()

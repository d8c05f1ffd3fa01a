"""Symbolic stage: verifies the units of one property, one process per unit."""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyver import loader  # pylint: disable=wrong-import-position
loader.install()


def run_unit(u, seed, budget, thorough, left=1e9):
  from pyver import engine
  from pyver import models  # pylint: disable=unused-import
  from pyver import values
  t0 = time.time()
  opts = {k: x for k, x in u.opts.items() if not k.startswith('con_')}
  if thorough:
    opts['vc_timeout'] = 4 * opts.get('vc_timeout', 8000)
  opts.setdefault('max_unroll', 64)

  def attempt(deadline, **extra):
    s = engine.Session(seed=seed, deadline=deadline, **dict(opts, **extra))
    s.unit = u
    out = dict(unit=u.name, about=u.about, bounded=u.bounded, error=None)

    def body(sess):
      sess.contracts = {}
      sess.use(*u.uses)
      u(sess)
    return s, out, body

  def go(s, out, body):
    try:
      s.explore(body)
    except values.Stop as e:
      out['error'] = f'{type(e).__name__}: {e}'
    except Exception as e:  # pylint: disable=broad-except
      out['error'] = f'engine: {type(e).__name__}: {e}'
      out['trace'] = traceback.format_exc()[-3000:]

  left = max(left, 5)
  s, out, body = attempt(t0 + min(budget, left))
  go(s, out, body)
  lost = [f['name'] for f in s.failed if 'invariant' in f['name'] or
          ' variant ' in f['name']]
  if (lost or (out['error'] and 'loop contract' in out['error'])):
    # the loop no longer has the shape its contract was written for: drop the
    # loop contracts and explore a bounded number of iterations instead
    why = lost or [out['error']]
    s, out, body = attempt(min(time.time() + .6 * budget, t0 + left), max_unroll=6)
    s.no_loop_contracts = True
    go(s, out, body)
    s.bounded.insert(0, f'loop contract not established ({why[0]}); '
                     'bounded unrolling instead')
  agg = {}
  for o in s.obligations:
    a = agg.setdefault(o.name, dict(n=0, proved=0, refuted=0, unknown=0,
                                    backends={}, time=0.0))
    a['n'] += 1
    a[o.status] += 1
    a['backends'][o.backend] = a['backends'].get(o.backend, 0) + 1
    a['time'] = round(a['time'] + o.time, 3)
  out.update(
      obligations=len(s.obligations),
      discharged=sum(o.status == 'proved' for o in s.obligations),
      by_name=agg, failed=s.failed, paths=s.paths, covers=s.covers,
      functions=sorted(s.functions), contract_uses=s.contract_uses,
      models=sorted(s.model_uses), loops=sorted(s.loops_used), notes=sorted(set(s.notes)),
      unrolled=s.bounded, solver_s=round(s.solver_time, 3),
      wall_s=round(time.time() - t0, 3))
  return out


def main():
  prop, seed, tier, budget, outfile = sys.argv[1:6]
  only = set(sys.argv[6].split(',')) if len(sys.argv) > 6 else None
  seed, budget = int(seed), float(budget)
  res = dict(units=[], error=None)
  try:
    importlib.import_module(f'props.{prop.lower()}')
    from pyver import spec
    units = [u for u in spec.UNITS if u.only != 'concrete']
    if only:
      units = [u for u in units if u.name in only]
  except Exception as e:  # pylint: disable=broad-except
    res['error'] = f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-3000:]
    units = []
  from pyver import engine  # pylint: disable=unused-import
  from pyver import models  # pylint: disable=unused-import
  # one forked process per unit, at most NP at a time
  np_ = int(os.environ.get('VERIF_PROCS', '8'))
  todo, live = list(units), {}
  end = time.time() + 2.2 * budget      # all units together
  tmp = outfile + '.d'
  os.makedirs(tmp, exist_ok=True)
  while todo or live:
    while todo and len(live) < np_:
      u = todo.pop(0)
      path = os.path.join(tmp, u.name + '.json')
      pid = os.fork()
      if pid == 0:
        code = 0
        try:
          r = run_unit(u, seed, budget, tier == 'thorough',
                       end - time.time())
          with open(path, 'w') as f:
            json.dump(r, f, default=str)
        except BaseException:  # pylint: disable=broad-except
          traceback.print_exc()
          code = 1
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
      live[pid] = (u, path, time.time())
    pid, st = os.waitpid(-1, os.WNOHANG)
    if pid == 0:
      for p, (u, path, t0) in list(live.items()):
        if time.time() > min(t0 + 1.6 * budget, end) + 40:
          os.kill(p, 9)
      time.sleep(0.02)
      continue
    u, path, t0 = live.pop(pid)
    try:
      with open(path) as f:
        r = json.load(f)
    except (OSError, ValueError):
      r = dict(unit=u.name, about=u.about, bounded=u.bounded,
               error='the verifier process for this unit died or hit its '
               'time limit', obligations=0, discharged=0, by_name={},
               failed=[], paths=0, covers=0, functions=[], contract_uses={},
               models=[], notes=[], unrolled=[], solver_s=0,
               wall_s=time.time() - t0)
    res['units'].append(r)
  res['files'] = loader.FILES
  with open(outfile, 'w') as f:
    json.dump(res, f)


if __name__ == '__main__':
  main()

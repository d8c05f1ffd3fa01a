"""Entry point of every registered check:  check.py <PROPERTY> [--thorough]."""
import argparse
import collections
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu',
           CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3',
           PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', TF_ENABLE_ONEDNN_OPTS='0',
           PYTHONPATH=HERE, LC_ALL='C.UTF-8')

TRUSTED = [
    'CPython 3.12 executes the instrumented module exactly as the original '
    '(instrumentation: pyver/loader.py; calls, loads a[i] and loops routed '
    'through hooks that are the identity outside a session)',
    'float is read as the mathematical reals, int as the integers; float '
    'literals as the decimals they are written as; no NaN, no infinities, no '
    'rounding, no overflow',
    'z3 5.3.2 (and cvc5 1.1.2 as second back end) are sound when they answer '
    'unsat',
    'pyver itself (engine.py, values.py, models.py)',
    'logging, gin wrappers and dataclass machinery are executed natively and '
    'have no effect on the values',
]


def known_findings(prop):
  path = os.path.join(HERE, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return [k for k in json.load(f)['findings'] if k['property'] == prop]


def run_stage(mod, args, logf, timeout):
  with open(logf, 'w') as lf:
    p = subprocess.Popen([PY, '-W', 'ignore', '-m', mod] + args, cwd=HERE,
                         env=ENV, stdout=lf, stderr=subprocess.STDOUT,
                         start_new_session=True)
  return p


def wait(p, timeout):
  try:
    p.wait(timeout)
  except subprocess.TimeoutExpired:
    try:
      os.killpg(p.pid, 9)
    except ProcessLookupError:
      pass
    p.wait()


def conrun(work, prop, seed, n, budget, units, only=None, tag='c', fork=True,
           timeout=400, scale=1):
  job = os.path.join(work, tag + '.job.json')
  out = os.path.join(work, tag + '.out.json')
  with open(job, 'w') as f:
    json.dump(dict(prop=prop, seed=seed, n=n, budget=budget, units=units,
                   only=only, fork=fork, hard=timeout, scale=scale), f)
  p = run_stage('pyver.conrun', [job, out], os.path.join(work, tag + '.log'),
                timeout)
  return p, out


def load(path, log):
  try:
    with open(path) as f:
      return json.load(f)
  except (OSError, ValueError):
    tail = ''
    try:
      tail = open(log).read()[-3000:]
    except OSError:
      pass
    return dict(units=[], error='stage produced no result\n' + tail)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--thorough', action='store_true')
  ap.add_argument('--replay')
  ap.add_argument('--verbose', '-v', action='store_true')
  ap.add_argument('--only')
  ap.add_argument('--no-sym', action='store_true')
  a = ap.parse_args()
  prop = a.prop.upper()
  if a.replay:
    return replay(prop, a.replay)
  thorough = a.thorough or os.environ.get('VERIF_TIER') == 'thorough'
  tier = 'thorough' if thorough else 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  only = a.only.split(',') if a.only else None
  outdir = os.path.join(HERE, 'out')
  os.makedirs(outdir, exist_ok=True)
  work = tempfile.mkdtemp(prefix=f'pyver-{prop}-')
  try:
    return check(prop, tier, seed, only, a, work, outdir, t0)
  finally:
    shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, only, a, work, outdir, t0):
  thorough = tier == 'thorough'
  ubudget = 360 if thorough else 140
  # stage 1: verification conditions and, alongside, the CPython cross-check
  symout = os.path.join(work, 'sym.json')
  ps = None
  if not a.no_sym:
    ps = run_stage('pyver.symrun', [prop, str(seed), tier, str(ubudget),
                                    symout] + ([','.join(only)] if only else
                                               []),
                   os.path.join(work, 'sym.log'), ubudget + 90)
  pc, conout = conrun(work, prop, seed, 20000 if thorough else 250,
                      120 if thorough else 8, {}, only,
                      timeout=700 if thorough else 200,
                      scale=6 if thorough else 1)
  if ps:
    wait(ps, 2.2 * ubudget + 60)
  wait(pc, 760 if thorough else 300)
  sym = load(symout, os.path.join(work, 'sym.log')) if ps else dict(
      units=[], error=None)
  con = load(conout, os.path.join(work, 'c.log'))

  violations = []       # dicts: unit, obligation, inputs|None, ...
  undecided = []
  for u in con['units']:
    if u.get('failure'):
      violations.append(dict(u['failure'], how='contract run on CPython'))
  bad = {}
  # a concrete run that reached the end is a reachability witness as well
  ran = {u['unit'] for u in con['units'] if u['runs'] > u['rejected']}
  for u in sym['units']:
    if not u['covers'] and u['unit'] in ran:
      u['covers'] = 1
      u['notes'] = list(u['notes'] or []) + ['reachability witnessed by a '
                                             'concrete run']
    if u['failed'] or u['error'] or u['unrolled'] or (
        u['obligations'] == 0) or not u['covers']:
      bad[u['unit']] = u
  # stage 2: replay counterexamples on the real code
  have = {x['unit'] for x in violations}
  need = {n: u for n, u in bad.items() if n not in have}
  errs = []
  if sym.get('error'):
    errs.append('symbolic stage: ' + sym['error'])
  if con.get('error'):
    errs.append('concrete stage: ' + con['error'])
  con2 = dict(units=[])
  if need and not con.get('error'):
    jobs = {}
    for n, u in need.items():
      forced = []
      for f in u['failed']:
        if f['inputs']:
          forced.append(f['inputs'])
        forced.extend(f.get('more') or [])
      jobs[n] = dict(n=60000, budget=90 if not thorough else 240,
                     forced=forced[:40])
    p2, out2 = conrun(work, prop, seed + 17, 1000, 60, jobs, list(jobs),
                      tag='c2', timeout=300)
    wait(p2, 330)
    con2 = load(out2, os.path.join(work, 'c2.log'))
    for u in con2['units']:
      if u.get('failure'):
        violations.append(dict(u['failure'],
                               how='counterexample replayed on CPython'))
  have = {x['unit'] for x in violations}
  for n, u in bad.items():
    if n in have:
      continue
    ref = [f for f in u['failed'] if f['status'] == 'refuted']
    unk = [f for f in u['failed'] if f['status'] != 'refuted']
    if ref and not u['error']:
      f = ref[0]
      violations.append(dict(unit=n, obligation=f['name'], inputs=None,
                             detail=f.get('info'), verifier=f,
                             how='obligation refuted, no failing input'))
    else:
      undecided.append(dict(
          unit=n, error=u['error'], unknown=[f['name'] for f in unk],
          refuted=[f['name'] for f in ref],
          unrolled=u['unrolled'], obligations=u['obligations'],
          covers=u['covers']))
  # the repository itself does not import
  for stage in (con,):
    if stage.get('error') and 'balloon_learning_environment' in (
        stage['error']) and 'props/' not in stage['error'].strip().splitlines(
        )[-3:][0] and '/repo' in stage['error']:
      tb = stage['error']
      inner = [l for l in tb.splitlines() if l.strip().startswith('File ')]
      if inner and 'balloon_learning_environment' in inner[-1]:
        violations.append(dict(unit='import', inputs={},
                               obligation='the modules of the property import',
                               detail=tb[-1500:], how='import'))

  # known findings: replay the listed inputs
  for k in known_findings(prop):
    p3, out3 = conrun(work, prop, seed, 0, 60,
                      {k['unit']: dict(n=0, budget=60, forced=[k['inputs']])},
                      [k['unit']], tag='kf', timeout=100)
    wait(p3, 120)
    r = load(out3, os.path.join(work, 'kf.log'))
    if any(u.get('failure') for u in r['units']):
      print(f'KNOWN-FINDING: property={prop} {k["what"]}')

  kfu = {k['unit'] for k in known_findings(prop)}
  violations = [x for x in violations if x['unit'] not in kfu]
  # units of known findings are specific inputs; they never decide

  nob = sum(u['obligations'] for u in sym['units'])
  ndis = sum(u['discharged'] for u in sym['units'])
  backends = collections.Counter()
  for u in sym['units']:
    for o in u['by_name'].values():
      backends.update(o['backends'])
  contracts = sorted({c for u in sym['units'] for c in u['contract_uses']})
  functions = sorted({f for u in sym['units'] for f in u['functions']})
  conunits = con['units']
  bounded_units = [u for u in conunits
                   if u['unit'] not in {x['unit'] for x in sym['units']}]
  meta = {}
  try:
    sys.path.insert(0, HERE)
    import meta as m
    meta = m.META.get(prop, {})
  except Exception:  # pylint: disable=broad-except
    pass
  n_ok = sum(1 for u in sym['units'] if u['unit'] not in bad)
  loops = sorted({l for u in sym['units'] for l in u.get('loops', [])})
  cov = dict(
      loops_under_invariant=loops,
      obligations=nob, discharged=ndis,
      checker_cmd=f'/opt/venv/bin/python -m pyver.symrun {prop} {seed} {tier} '
      f'{ubudget} out.json   (VC generator pyver; z3, cvc5)',
      trusted_base=TRUSTED + meta.get('trusted', []),
      functions_executed_under_contract=functions,
      callee_contracts_used=contracts,
      primitive_models_used=sorted({m_ for u in sym['units']
                                    for m_ in u['models']}),
      backends=dict(backends),
      solver_s=round(sum(u['solver_s'] for u in sym['units']), 2),
      units=[dict(unit=u['unit'], about=u['about'], obligations=u[
          'obligations'], discharged=u['discharged'], paths=u['paths'],
                  reachable=bool(u['covers']), error=u['error'],
                  unrolled=u['unrolled'], notes=u['notes'],
                  solver_s=u['solver_s'],
                  by_name=u['by_name']) for u in sym['units']],
      units_fully_discharged=n_ok,
      bounded_stand_ins=[dict(unit=u['unit'], runs=u['runs'],
                              rejected=u['rejected'], checks=u['checked'])
                         for u in bounded_units],
      cpython_cross_check=dict(
          evaluations=sum(u['runs'] for u in conunits),
          rejected=sum(u['rejected'] for u in conunits),
          contract_evaluations=sum(u['checked'] for u in conunits),
          samples=[dict(unit=u['unit'], inputs=u['sample'])
                   for u in conunits if u.get('sample')][:6]),
      undecided=undecided, stage_errors=errs)
  ev = dict(property=prop, tier=tier, seed=seed,
            level=meta.get('level', 'proof'), coverage=cov,
            assumptions=meta.get('assumptions', []),
            wall_s=round(time.time() - t0, 2), violations=len(violations))
  if not only and not os.environ.get('VERIF_NOEV'):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=str)

  print(f'{prop} [{tier}] {len(sym["units"])} units, {ndis}/{nob} obligations '
        f'discharged ({dict(backends)}), cross-check '
        f'{cov["cpython_cross_check"]["evaluations"]} runs, '
        f'{round(time.time()-t0, 1)} s')
  if a.verbose:
    for u in sym['units']:
      print(f'  {u["unit"]:40s} ob {u["discharged"]}/{u["obligations"]} paths '
            f'{u["paths"]} cover {u["covers"]} wall {u["wall_s"]} solver '
            f'{u["solver_s"]} {u["error"] or ""} {u["unrolled"] or ""} '
            f'{u["notes"] or ""}')
      if u.get('trace'):
        print(u['trace'])
      for f in u['failed'][:6]:
        print('     FAILED', f['status'], f['name'], f.get('info') or '',
              json.dumps(f['inputs'])[:600])
        print('       goal', f['goal'][:600])
    for u in conunits:
      print(f'  con {u["unit"]:36s} runs {u["runs"]} rej {u["rejected"]} '
            f'checks {u["checked"]} wall {u.get("wall_s")}'
            f'{" DIED" if u.get("died") else ""}')
    for e in errs:
      print(e)
    for f in ('sym.log', 'c.log'):
      try:
        t = open(os.path.join(work, f)).read()
        if 'Traceback' in t or 'Error' in t:
          print(f'--- {f}\n' + t[-2500:])
      except OSError:
        pass
  for e in undecided:
    print('UNDECIDED', json.dumps(e)[:400])
  for e in errs:
    print('STAGE-ERROR', e[-600:])
  if not violations:
    if nob == 0 and not any(u['checked'] for u in conunits):
      print('no obligations generated')
      return 2
    if not sym['units'] and not conunits:
      print('no unit could be run')
      return 2 if not errs else 2
    return 0
  best = sorted(violations, key=lambda x: x['inputs'] is None)
  if best[0]['inputs'] is not None:
    for x in best:
      if x['inputs'] is None:
        print(f'  also refuted (not replayed): unit {x["unit"]}: '
              f'{x["obligation"]}')
    best = [x for x in best if x['inputs'] is not None]
  seen = set()
  for x in best[:5]:
    key = (x['unit'], x['obligation'])
    if key in seen:
      continue
    seen.add(key)
    h = hashlib.sha1(json.dumps(x, default=str).encode()).hexdigest()[:10]
    path = os.path.join(outdir, f'{prop}-{x["unit"]}-{h}.json')
    x['property'] = prop
    x['replay_cmd'] = (f'cd {HERE} && /opt/venv/bin/python -m pyver.check '
                       f'{prop} --replay {path}')
    with open(path, 'w') as f:
      json.dump(x, f, indent=1, default=str)
    print(f'  failed: unit {x["unit"]}: {x["obligation"]}  '
          f'{str(x.get("detail") or "")[:300]}')
    if x['inputs'] is not None:
      print('  inputs: ' + json.dumps(x['inputs'], default=str)[:600])
    tail = '' if x['inputs'] is not None else ' no-failing-input-found'
    print(f'VIOLATION property={prop} replay={path}{tail}')
  return 1


def replay(prop, path):
  with open(path) as f:
    x = json.load(f)
  if x['inputs'] is None:
    print(json.dumps(x, indent=1)[:6000])
    print('no failing input was found; the obligation above was refuted')
    return 1
  work = tempfile.mkdtemp(prefix='pyver-replay-')
  try:
    p, out = conrun(work, prop, 0, 0, 100, {x['unit']: dict(
        n=0, budget=100, forced=[x['inputs']])}, [x['unit']], fork=False)
    wait(p, 200)
    r = load(out, os.path.join(work, 'c.log'))
    print(json.dumps(r, indent=1)[:4000])
    return 1 if any(u.get('failure') for u in r['units']) else 0
  finally:
    shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
  sys.exit(main())

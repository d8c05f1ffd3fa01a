"""plant.py FILE [ids]: create and confirm the seeded changes described in FILE.

FILE defines PLANTS: list of dicts id, property, edits [(file, old, new)],
needs, what, demo (Python source).  For each: patch.diff, demo.sh, demo.py and
meta.json under /verif/seeded/<id>; the demo must pass on a clean copy and fail
on a patched one, the stable tests must still pass on the patched one, and the
check of the property is run against it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import threading
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

V = '/verif'
LOCK = threading.Lock()
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
export PYTHONPATH=$PWD JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= PYTHONHASHSEED=0
export TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **k):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tests(d):
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='',
             TF_CPP_MIN_LOG_LEVEL='3', MPLBACKEND='Agg',
             PYTHONPATH='/opt/vp/pytest_plugins', TEST_TMPDIR=d + '.absl',
             MPLCONFIGDIR=d + '.mpl')
  for x in ('.absl', '.mpl'):
    os.makedirs(d + x, exist_ok=True)
  sh(f'timeout 600 {PY} -m pytest -q -n 4 --dist loadfile -p no:cacheprovider '
     '-p absl_flags --timeout=300 --continue-on-collection-errors -o '
     f'"python_files=*_test.py" -o junit_family=xunit2 --junitxml={d}.xml '
     'balloon_learning_environment', cwd=d, env=env)
  out = sh(f'/usr/bin/python3 /opt/vp/results.py {d}.json junit:{d}.xml', cwd=d)
  passed = set(json.load(open(d + '.json'))['passed'])
  for x in ('.absl', '.mpl'):
    shutil.rmtree(d + x, ignore_errors=True)
  for x in ('.xml', '.json'):
    os.remove(d + x)
  return len(STABLE - passed)


def one(p, run_tests):
  out = f'{V}/seeded/{p["id"]}'
  os.makedirs(out, exist_ok=True)
  d = f'/tmp/pl/{p["id"]}'
  shutil.rmtree(d, ignore_errors=True)
  sh(f'cp -a /repo {d}')
  log = []
  with open(out + '/demo.py', 'w') as f:
    f.write(p['demo'].lstrip('\n'))
  with open(out + '/demo.sh', 'w') as f:
    f.write(DEMO)
  os.chmod(out + '/demo.sh', 0o755)
  json.dump(dict(property=p['property'], needs=p['needs'],
                 what_it_breaks=p['what']), open(out + '/meta.json', 'w'),
            indent=1)
  # the demo from a folder of its own
  dd = d + '.demo'
  shutil.rmtree(dd, ignore_errors=True)
  os.makedirs(dd)
  for x in ('demo.py', 'demo.sh'):
    shutil.copy(f'{out}/{x}', dd)
  r = sh(f'timeout 280 bash {dd}/demo.sh', cwd=d)
  log.append(f'demo clean {r.returncode}' + ('' if not r.returncode else
                                            r.stderr[-600:] + r.stdout[-300:]))
  for f, old, new in p['edits']:
    q = f'{d}/balloon_learning_environment/{f}'
    s = open(q).read()
    if s.count(old) != 1:
      return p['id'], f'{f}: {s.count(old)} matches for {old!r}'
    open(q, 'w').write(s.replace(old, new))
  with open(out + '/patch.diff', 'w') as f:
    f.write(sh('git diff', cwd=d).stdout)
  r = sh(f'timeout 280 bash {dd}/demo.sh', cwd=d)
  last = [l for l in (r.stderr + r.stdout).strip().splitlines() if l][-1:]
  log.append(f'demo patched {r.returncode} {last}')
  r = sh(f'{PY} -m compileall -q balloon_learning_environment', cwd=d,
         env=dict(os.environ, PYTHONPYCACHEPREFIX=d + '.pyc'))
  shutil.rmtree(d + '.pyc', ignore_errors=True)
  if run_tests:
    log.append(f'tests lost {tests(d)}')
  r = sh(f'./check {p["property"]}', cwd=V, env=dict(
      os.environ, VERIF_REPO=d, VERIF_PROCS='4', VERIF_NOEV='1'))
  log.append(f'check rc {r.returncode} ' + ' | '.join(
      l.strip()[:140] for l in r.stdout.splitlines()
      if l.startswith('VIOL') or l.strip().startswith('failed')
      or 'UNDEC' in l)[:420])
  shutil.rmtree(d, ignore_errors=True)
  shutil.rmtree(dd, ignore_errors=True)
  with LOCK:
    c = f'{V}/tools/caught.json'
    res = json.load(open(c)) if os.path.exists(c) else {}
    fl = [l for l in r.stdout.splitlines() if l.strip().startswith('failed')]
    res[p['id']] = {0: 'no', 1: 'yes'}.get(r.returncode, 'error') + (
        ' (' + fl[0].strip()[8:].split('  ')[0] + ')' if fl else '')
    json.dump(res, open(c, 'w'), indent=1, sort_keys=True)
  return p['id'], '\n    '.join(log)


def main():
  plants = runpy.run_path(sys.argv[1])['PLANTS']
  ids = sys.argv[2:]
  rt = '--notests' not in ids
  ids = [i for i in ids if not i.startswith('--')]
  with ThreadPoolExecutor(2) as ex:
    for i, r in ex.map(lambda p: one(p, rt),
                       [p for p in plants if not ids or p['id'] in ids]):
      print(f'== {i}\n    {r}', flush=True)


main()

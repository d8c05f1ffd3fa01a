"""Writes properties.jsonl and MANIFEST.json from meta.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from meta import META

TECH = ('deductive verification of the real code against contracts: VCs '
        'generated from the current source by symbolic execution (pyver), '
        'discharged by z3/cvc5; counterexamples replayed on CPython')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
  for p in META.values():
    d = dict(id=p['id'], title=p['title'], statement=p['statement'],
             quantifier=dict(over=p['over'], text=p['qtext']),
             why_tests_cant=p['why'],
             anchors=dict(files=p['files'], mechanism=p['mech'],
                          observe_at=p['observe'] or [], hook_needed=None))
    if p['state']:
      d['anchors']['state'] = p['state']
    f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[],
         notes='See DESIGN.md. No hooks in /repo; only fix: commits.')
for p in META.values():
  if os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')):
    m['checks'].append(dict(
        property=p['id'], quick_cmd=f'./check {p["id"]}',
        thorough_cmd=f'./check {p["id"]} --thorough',
        technique=p['tech'] or TECH, level=p['level'], level_note=p['note']))
  else:
    m['not_applicable'].append(dict(
        property=p['id'], reason=p['na'] or 'check not built yet'))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
print(len(META), 'properties', len(m['checks']), 'claimed')


def units_of(path):
  import ast
  for n in ast.parse(open(path).read()).body:
    if isinstance(n, ast.FunctionDef) and n.decorator_list:
      d = n.decorator_list[0]
      f = d.func if isinstance(d, ast.Call) else d
      kind = getattr(f, 'id', '')
      if kind not in ('unit', 'per_case', 'bounded_unit'):
        continue
      doc = ' '.join((ast.get_docstring(n) or '').split())
      bound = ast.literal_eval(d.args[0]) if kind == 'bounded_unit' else None
      yield n.name, kind, doc, bound


rows = []
for p in META.values():
  path = os.path.join(HERE, 'props', p['id'].lower() + '.py')
  rows.append(f'### {p["id"]} {p["title"]}\n')
  if not os.path.exists(path):
    rows.append('Not claimed: ' + (p['na'] or 'check not built yet') + '.\n')
    continue
  if p['note']:
    rows.append(p['note'] + '\n')
  for name, kind, doc, bound in units_of(path):
    rows.append(f'* `{name}`' + (' (one unit per case)' if kind == 'per_case'
                                 else '') + f': {doc}' +
                (f' **Bounded stand-in: {bound}.**' if bound else ''))
  rows.append('')
seeds = ['| change | property | needs | caught by its check |', '|---|---|---|---|']
sd = os.path.join(HERE, 'seeded')
try:
  CAUGHT = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
except OSError:
  CAUGHT = {}
for s in sorted(os.listdir(sd)):
  q = json.load(open(os.path.join(sd, s, 'meta.json')))
  seeds.append(f'| {s} | {q["property"]} | {q["needs"]} | '
               f'{CAUGHT.get(s, "not run")} |')
t = open(os.path.join(HERE, 'tools', 'design.in.md')).read()
t = t.replace('PROPERTY_TABLE', '\n'.join(rows)).replace(
    'SEED_TABLE', '\n'.join(seeds))
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
  f.write(t)

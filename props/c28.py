"""C28 suites, shards and merging."""
import builtins
import json
import os
import shutil
import tempfile
import types

from balloon_learning_environment.eval import combine_eval_shards
from props.common import *
free_flags()
from balloon_learning_environment.eval import eval as eval_main
from balloon_learning_environment.eval import eval_lib
from balloon_learning_environment.eval import strata_seeds
from balloon_learning_environment.eval import suites
from balloon_learning_environment.utils import run_helpers
from pyver.spec import unit, per_case, bounded_unit
import gym


class Stop(Exception):
  """Raised by the evaluation stand-in: nothing after it matters."""


class Seeds:
  """A list of N seeds (the i-th is i), N arbitrary; remembers its slices."""

  def __init__(self, n, lo=0, hi=None):
    self.n, self.lo, self.hi = n, lo, n if hi is None else hi

  def __vc_len__(self):
    return self.hi - self.lo

  def __iter__(self):
    from pyver.values import Unsupported
    raise Unsupported('iteration over a list of symbolic length')

  def __getitem__(self, i):
    if not isinstance(i, slice) or i.step not in (None, 1):
      from pyver.values import Unsupported
      raise Unsupported('only plain slices of a symbolic list')
    lo = 0 if i.start is None else i.start
    hi = self.__vc_len__() if i.stop is None else i.stop
    return Seeds(self.n, self.lo + lo, self.lo + hi)


def flags(**kw):
  return types.SimpleNamespace(**{**dict(
      agent='dqn', suite='big_eval', wind_field='generative',
      agent_gin_file=None, gin_bindings=[], output_dir='/nowhere',
      num_shards=1, shard_idx=0, pretty_json=False, checkpoint_dir=None,
      checkpoint_idx=None, name_override=None, renderer=None,
      render_period=10), **kw})


class World:
  """Stand-ins for everything an evaluation job calls (C26, C27, C35)."""

  def __init__(self, V, seeds=(), result=None):
    self.V, self.log = V, []
    self.env = types.SimpleNamespace(
        action_space=types.SimpleNamespace(n=3),
        observation_space=types.SimpleNamespace(shape=(1099,)))
    self.agent = types.SimpleNamespace(
        load_checkpoint=self.note('load_checkpoint', None))
    self.suite = suites.EvaluationSuite(seeds, 960)
    self.wf = object()
    V.patch(run_helpers, 'bind_gin_variables', self.note('gin', None))
    V.patch(run_helpers, 'get_wind_field_factory', self.note('wf', self.wf))
    V.patch(run_helpers, 'create_agent', self.note('agent', self.agent))
    V.patch(gym, 'make', self.note('make', self.env))
    V.patch(suites, 'get_eval_suite', self.note('suite', self.suite))

    def evaluate(agent, env, eval_suite, **kw):
      self.log.append(('eval', (agent, env, eval_suite), kw))
      if result is None:
        raise Stop
      return result
    V.patch(eval_lib, 'eval_agent', evaluate)

  def note(self, name, value):
    def f(*a, **k):
      self.log.append((name, a, k))
      return value
    return f

  def calls(self, name):
    return [(a, k) for n, a, k in self.log if n == name]


def seeds_of_job(V, seeds, **kw):
  """The seeds the job with these flags evaluates."""
  w = World(V, seeds)
  V.patch(eval_main, 'FLAGS', flags(**kw))
  r = V.run(lambda: eval_main.main(['eval']))
  V.prove('the job evaluates', r[0] == 'raise' and isinstance(r[1], Stop))
  V.prove('the length limit is kept', w.suite.max_episode_length == 960)
  return w.calls('eval')[0][0][2].seeds


@unit(con_max=400)
def shards(V):
  """Every seed is evaluated by exactly one of the shards, in order: for every
  list of seeds and every number of shards."""
  n = V.int('seeds', 0, 50 if V.concrete_mode else None)
  m = V.int('shards', 1, 60 if V.concrete_mode else None)
  if V.concrete_mode:
    every = list(range(100, 100 + n))
    got = [seeds_of_job(V, list(every), num_shards=m, shard_idx=i)
           for i in range(m)]
    V.prove('every seed is in exactly one shard',
            sorted(x for g in got for x in g) == every)
    V.prove('each shard in order', all(list(g) == sorted(g) for g in got))
    return
  k = V.int('shard', 0, None)
  V.assume(k < m)
  a = seeds_of_job(V, Seeds(n), num_shards=m, shard_idx=k)
  V.prove('within the list', V.And(0 <= a.lo, a.lo <= a.hi, a.hi <= n))
  V.prove('the first shard starts with the first seed', V.Implies(
      V.eq(k, 0), V.eq(a.lo, 0)))
  V.prove('the last shard ends with the last seed', V.Implies(
      V.eq(k + 1, m), V.eq(a.hi, n)))
  if V.truth(k + 1 < m):
    b = seeds_of_job(V, Seeds(n), num_shards=m, shard_idx=k + 1)
    V.prove('the next shard starts where this one ends', V.eq(b.lo, a.hi))


@unit(con_max=60)
def wired(V):
  """The job evaluates the requested agent, from the requested checkpoint, on
  the requested suite and wind field, and writes what it got."""
  there = tempfile.mkdtemp()
  try:
    idx = V.choice('checkpoint', [None, 0, 7])
    cdir = V.choice('checkpoint dir', [None, '/ckpt'])
    m = V.choice('shards', [1, 2, 3])
    i = V.choice('shard', [0, 1, 2])
    V.assume(i < m)
    name = V.choice('name', [None, 'mine'])
    f = flags(agent='random', suite='tiny_eval', wind_field='simple',
              agent_gin_file='a.gin', gin_bindings=['x.y=1'],
              output_dir=os.path.join(there, 'out'), num_shards=m, shard_idx=i,
              checkpoint_dir=cdir, checkpoint_idx=idx, name_override=name,
              pretty_json=V.choice('pretty', [True, False]))
    result = [eval_lib.EvaluationResult(5, .25, .5, False, False, True, 3, [])]
    w = World(V, [1, 2, 3, 4, 5, 6], result)
    V.patch(eval_main, 'FLAGS', f)
    eval_main.main(['eval'])
    (a, k), = w.calls('gin')
    V.prove('gin', [*a, *k.values()] == ['random', 'a.gin', ['x.y=1']])
    (a, k), = w.calls('wf')
    V.prove('wind field', [*a, *k.values()] == ['simple'])
    (a, k), = w.calls('make')
    V.prove('environment', a[0] == 'BalloonLearningEnvironment-v0' and
            k['wind_field_factory'] is w.wf and k.get('renderer') is None)
    (a, k), = w.calls('agent')
    V.prove('agent', [*a, *k.values()] == ['random', 3, (1099,)])
    V.prove('configured before it is created', [n for n, _, _ in w.log].index(
        'gin') < [n for n, _, _ in w.log].index('agent'))
    load = [[*a, *k.values()] for a, k in w.calls('load_checkpoint')]
    V.prove('restored exactly when a checkpoint is named', load == (
        [['/ckpt', idx]] if cdir and idx is not None else []))
    (a, k), = w.calls('suite')
    V.prove('suite', [*a, *k.values()] == ['tiny_eval'])
    (a, k), = w.calls('eval')
    V.prove('evaluated', a[0] is w.agent and a[1] is w.env and
            k.get('render_period', 10) == 10)
    V.prove('restored before it is evaluated', [n for n, _, _ in w.log][
        -1] == 'eval')
    stem = name or ('random' if idx is None else f'random_{idx}')
    if m > 1:
      stem += f'_{i}'
    V.prove('one file, named after agent, checkpoint and shard',
            os.listdir(there) == ['out'] and
            os.listdir(f'{there}/out') == ['tiny_eval'] and
            os.listdir(f'{there}/out/tiny_eval') == [stem + '.json'])
    with builtins.open(f'{there}/out/tiny_eval/{stem}.json') as g:
      d = json.loads(g.read())
    V.prove('holding the results', len(d) == 1 and d[0] == dict(
        seed=5, cumulative_reward=.25, time_within_radius=.5,
        out_of_power=False, envelope_burst=False, zeropressure=True,
        final_timestep=3, flight_path=[]))
  finally:
    shutil.rmtree(there)


# directory contents: {file: number of results}; models; expected sources
DIRS = {
    'none': ({}, ['dqn'], {'dqn': []}),
    'one': ({'dqn_0': 2}, ['dqn'], {'dqn': ['dqn_0']}),
    'two': ({'dqn_0': 1, 'dqn_1': 2}, ['dqn'], {'dqn': ['dqn_0', 'dqn_1']}),
    'three': ({'dqn_0': 1, 'dqn_1': 0, 'dqn_2': 1}, ['dqn'],
              {'dqn': ['dqn_0', 'dqn_1', 'dqn_2']}),
    'many': ({'dqn_9': 1, 'dqn_10': 1, 'dqn_11': 1}, ['dqn'],
             {'dqn': ['dqn_9', 'dqn_10', 'dqn_11']}),
    'prefix': ({'random_0': 1, 'random_walk_0': 1, 'random_walk_1': 1},
               ['random', 'random_walk'],
               {'random': ['random_0'],
                'random_walk': ['random_walk_0', 'random_walk_1']}),
    'checkpoints': ({'dqn_0': 1, 'dqn_100_0': 1, 'dqn_100_1': 1},
                    ['dqn', 'dqn_100'],
                    {'dqn': ['dqn_0'], 'dqn_100': ['dqn_100_0', 'dqn_100_1']}),
    'again': ({'dqn': 1, 'dqn_0': 1, 'dqn_1': 1}, ['dqn'],
              {'dqn': ['dqn_0', 'dqn_1']}),
    'other_agents': ({'mlp': 1, 'mlp_0': 1, 'xdqn_0': 1, 'dqn_0': 2},
                     ['dqn'], {'dqn': ['dqn_0']}),
    'brackets': ({'a[0]_0': 1, 'a0_0': 1, 'a[0]_1': 1}, ['a[0]'],
                 {'a[0]': ['a[0]_0', 'a[0]_1']}),
}


@per_case(DIRS, con_max=60, max_paths=4000)
def merged(V, case):
  """Merging yields every result of the requested agents' shards once, by
  seed; results are arbitrary."""
  files, models, want = case
  keep = V.choice('flight paths', [True, False])
  content, count = {}, 0
  for name, n in files.items():
    content[name] = []
    for _ in range(n):
      content[name].append(dict(
          seed=V.int(f'seed{count}', 0, None, small=50), tag=count,
          cumulative_reward=V.real(f'r{count}', 0, 960),
          flight_path=[dict(x=V.real(f'x{count}'))] if V.choice(
              f'path{count}', [True, False]) else []))
      count += 1
  given = {n: [dict(d, flight_path=list(d['flight_path'])) for d in ds]
           for n, ds in content.items()}
  there = tempfile.mkdtemp()
  written = {}
  V.patch(json, 'load', lambda f, *a, **k: content[
      os.path.basename(f.name)[:-5]])

  def dump(data, f, *a, **k):
    written[os.path.basename(f.name)] = list(data)
  V.patch(json, 'dump', dump)
  try:
    for name in files:
      with builtins.open(f'{there}/{name}.json', 'w') as f:
        f.write('[]')
    with builtins.open(f'{there}/notes_0.txt', 'w') as f:
      f.write('-')
    V.patch(combine_eval_shards, 'FLAGS', types.SimpleNamespace(
        path=there, models=models, pretty_json=V.choice('pretty', [
            True, False]), flight_paths=keep))
    combine_eval_shards.main(['combine'])
    V.prove('only the merged files are written', set(os.listdir(there)) == {
        'notes_0.txt', *(f'{n}.json' for n in [*files, *models])})
    V.prove('one merged file for every requested agent',
            set(written) == {f'{n}.json' for n in models})
  finally:
    shutil.rmtree(there)
  for m in models:
    out = written[f'{m}.json']
    src = {d['tag']: d for n in want[m] for d in given[n]}
    V.prove('every result exactly once, and no other',
            sorted(d['tag'] for d in out) == sorted(src))
    V.prove('by seed', V.And(*[V.le(p['seed'], q['seed'])
                               for p, q in zip(out, out[1:])]))
    for d in out:
      s = src[d['tag']]
      V.prove('unchanged', V.And(V.eq(d['seed'], s['seed']), V.eq(
          d['cumulative_reward'], s['cumulative_reward']), sorted(
              d) == sorted(s)))
      p = s['flight_path'] if keep else []
      V.prove('flight path kept or dropped', V.And(
          len(d['flight_path']) == len(p),
          *[V.eq(a['x'], b['x']) for a, b in zip(d['flight_path'], p)]))


@bounded_unit('sampled suites of up to 120 seeds and 114 shards, on disk', con_n=25,
              con_budget=60)
def there_and_back(V):
  """Jobs and merging on real files: every result once, for real flags."""
  n, m = V.int('seeds', 0, 12), V.int('shards', 2, 14)
  if V.choice('many', [False, False, False, True]):
    n, m = n * 10, m + 100
  there = tempfile.mkdtemp()
  try:
    for i in range(m):
      w = World(V, list(range(int(n))))
      V.patch(eval_lib, 'eval_agent', lambda agent, env, s, **kw: [
          eval_lib.EvaluationResult(x, x / 3, .5, False, False, False, 3, [])
          for x in s.seeds])
      V.patch(eval_main, 'FLAGS', flags(
          output_dir=there, suite='tiny_eval', num_shards=int(m), shard_idx=i))
      eval_main.main(['eval'])
      del w
    V.patch(combine_eval_shards, 'FLAGS', types.SimpleNamespace(
        path=f'{there}/tiny_eval', models=['dqn'], pretty_json=False,
        flight_paths=False))
    for _ in range(2):
      combine_eval_shards.main(['combine'])
      with builtins.open(f'{there}/tiny_eval/dqn.json') as f:
        d = json.loads(f.read())
      V.prove('the whole suite', [(x['seed'], x['cumulative_reward'])
                                  for x in d] == [(x, x / 3)
                                                  for x in range(int(n))])
  finally:
    shutil.rmtree(there)


STRATA = ['hardest', 'hard', 'mid', 'easy', 'easiest']


@unit(con_max=2)
def named_suites(V):
  """The published suites (finite, checked completely)."""
  want = dict(big_eval=range(10000), medium_eval=range(1000),
              small_eval=range(100), tiny_eval=range(10), micro_eval=[0])
  everything = []
  for s in STRATA:
    want[f'{s}_strata'] = strata_seeds.STRATA_SEEDS[s]
    everything += strata_seeds.STRATA_SEEDS[s]
    V.prove('strata hold distinct seeds', len(set(
        strata_seeds.STRATA_SEEDS[s])) == len(strata_seeds.STRATA_SEEDS[s]))
  V.prove('strata are disjoint', len(set(everything)) == len(everything))
  V.prove('all suites are listed once', sorted(suites.available_suites()) ==
          sorted([*want, 'all_strata']))
  for name, seeds in want.items():
    s = suites.get_eval_suite(name)
    V.prove(name, list(s.seeds) == list(seeds) and
            s.max_episode_length == 960)
  s = suites.get_eval_suite('all_strata')
  V.prove('all strata', sorted(s.seeds) == sorted(everything))
  for bad in ('', 'big', 'BIG_EVAL', 'big_eval '):
    V.prove('unknown names are refused', isinstance(V.run(
        lambda: suites.get_eval_suite(bad))[1], ValueError))


@unit(con_max=30)
def own_copy(V):
  """Whatever is done to a returned suite, the next one is as published."""
  name = V.choice('name', ['tiny_eval', 'micro_eval', 'small_eval',
                           'hardest_strata', 'all_strata', 'medium_eval'])
  s = suites.get_eval_suite(name)
  before = list(s.seeds)
  what = V.choice('what', ['append', 'clear', 'assign', 'length', 'sort'])
  if what == 'append':
    s.seeds.append(V.int('x', 0, None))
  elif what == 'clear':
    s.seeds.clear()
  elif what == 'assign':
    s.seeds = s.seeds[3:]
  elif what == 'length':
    s.max_episode_length = V.int('x', 1, None)
  else:
    s.seeds.sort(reverse=True)
  t = suites.get_eval_suite(name)
  V.prove('as published', list(t.seeds) == before)
  V.prove('its length', V.eq(t.max_episode_length, 960))
  V.prove('all the others too', [len(suites.get_eval_suite(n).seeds) for n in (
      'micro_eval', 'tiny_eval', 'small_eval')] == [1, 10, 100])

"""C35 lookups by name and path."""
import importlib
import importlib.resources as resources
import io
import os
import tempfile
import shutil
import types

import balloon_learning_environment
from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.agents import agent_registry
from balloon_learning_environment.agents import dqn_agent
from balloon_learning_environment.agents import mlp_agent
from balloon_learning_environment.agents import perciatelli44
from balloon_learning_environment.agents import quantile_agent
from balloon_learning_environment.agents import random_walk_agent
from balloon_learning_environment.agents import station_seeker_agent
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import generative_wind_field
from balloon_learning_environment.env import gym as ble_gym
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.rendering import matplotlib_renderer
from balloon_learning_environment.models import models
from balloon_learning_environment.utils import run_helpers
from props.common import *
free_flags()
from balloon_learning_environment import train
from balloon_learning_environment import train_lib
from pyver.spec import unit, per_case, bounded_unit
import gin
import gym
import matplotlib.image
import tensorflow as tf

CONFIGS = 'balloon_learning_environment/agents/configs'
AGENTS = {
    'random': (base_agent.RandomAgent, None),
    'mlp': (mlp_agent.MLPAgent, 'mlp'),
    'dqn': (dqn_agent.DQNAgent, 'dqn'),
    'perciatelli44': (perciatelli44.Perciatelli44, None),
    'quantile': (quantile_agent.QuantileAgent, 'quantile'),
    'finetune_perciatelli': (quantile_agent.QuantileAgent,
                             'finetune_perciatelli'),
    'station_seeker': (station_seeker_agent.StationSeekerAgent, None),
    'random_walk': (random_walk_agent.RandomWalkAgent, None),
}
UNKNOWN = ['', 'Random', 'dqn ', 'DQN', 'dqn_agent', 'quantile/', 'randomwalk']
WIND = {'simple': wind_field.SimpleStaticWindField,
        'generative': generative_wind_field.generative_wind_field_factory}


def config(name):
  return f'{CONFIGS}/{name}.gin' if name else None


# -- agents

@unit(con_max=40)
def agents(V):
  """Every registered agent and its configuration; others are refused."""
  name = V.choice('name', [*AGENTS, *UNKNOWN])
  made = V.run(lambda: agent_registry.agent_constructor(name))
  gin_file = V.run(lambda: agent_registry.get_default_gin_config(name))
  if name in AGENTS:
    V.prove('constructor', made == ('ok', AGENTS[name][0]))
    V.prove('configuration', gin_file == ('ok', config(AGENTS[name][1])))
  else:
    V.prove('no such agent', isinstance(made[1], ValueError) and
            isinstance(gin_file[1], ValueError))
  V.prove('acme agents ask for their dependencies', V.run(
      lambda: agent_registry.agent_constructor('acme_eval_agent'))[0] ==
          ('ok' if 'acme_eval_agent' in agent_registry.REGISTRY else 'raise'))


@unit(con_max=40)
def created(V):
  """An agent is created for the actions and observations given."""
  name = V.choice('name', list(AGENTS))
  n, shape = V.int('actions', 1, 100), (V.int('features', 1, 2000),)
  agent = object()
  made = []

  def make(*a, **k):
    made.append((a, k))
    return agent
  V.patch(agent_registry, 'REGISTRY', {
      **{k: (None, None) for k in AGENTS}, name: (make, None)})
  V.prove('the agent', run_helpers.create_agent(name, n, shape) is agent)
  (a, k), = made
  V.prove('its actions', V.eq([*a, *k.values()][0], n) and (
      a or 'num_actions' in k))
  got = k.get('observation_shape', a[1] if len(a) > 1 else None)
  V.prove('its observations', V.And(len(got) == 1, V.eq(got[0], shape[0])))


@unit(con_max=40)
def configured(V):
  """Configuration: the given file or the agent's own, then further files,
  then bindings; the packaged files are found from anywhere."""
  name = V.choice('name', list(AGENTS))
  own = V.choice('file', [None, 'mine.gin', ''])
  more = V.choice('further', [None, (), ['a.gin'], ['a.gin', 'b.gin']])
  bindings = V.choice('bindings', [None, [], ['x.y = 1', 'x.y = 2']])
  where, parsed = [], []
  V.patch(gin, 'add_config_file_search_path', lambda p: where.append(p))

  def parse(config_files=None, bindings=None, finalize_config=True,
            skip_unknown=False, print_includes_and_imports=False):
    parsed.append((list(config_files or []), list(bindings or []),
                   skip_unknown, list(where)))
  V.patch(gin, 'parse_config_files_and_bindings', parse)
  kw = dict(agent_gin_file=own) if own is not None else {}
  if more is not None:
    kw['additional_gin_files'] = more
  if bindings is not None:
    kw['gin_bindings'] = bindings
  run_helpers.bind_gin_variables(name, **kw)
  first = own if own is not None else config(AGENTS[name][1])
  V.prove('the file of an agent', run_helpers.get_agent_gin_file(
      name, own) == first)
  (files, bound, skip, known), = parsed
  V.prove('in this order', files == ([] if first is None else [first]) +
          list(more or []))
  V.prove('bindings', bound == list(bindings or []))
  V.prove('unknown parameters are refused', not skip)
  V.prove('packaged files are found', os.path.realpath(os.path.dirname(
      os.path.dirname(balloon_learning_environment.__file__))) in [
          os.path.realpath(p) for p in known])
  V.prove('unknown agents are refused', isinstance(V.run(
      lambda: run_helpers.bind_gin_variables('nobody'))[1], ValueError))


@bounded_unit('the packaged configurations, from another directory', con_n=2,
              con_budget=120)
def packaged(V):
  """Every packaged configuration is complete and its agent flies."""
  V.real('unused', 0, 1)
  small = ['agents.networks.MLPNetwork.hidden_units = 3',
           'agents.networks.QuantileNetwork.hidden_units = 3',
           'OutOfGraphReplayBuffer.replay_capacity = 100',
           'OutOfGraphPrioritizedReplayBuffer.replay_capacity = 100']
  back, there = os.getcwd(), tempfile.mkdtemp()
  try:
    os.chdir(there)
    for name in AGENTS:
      gin.clear_config()
      run_helpers.bind_gin_variables(
          name, gin_bindings=small if name in ('dqn', 'quantile') else [])
      if 'perciatelli' in name:
        continue       # its weights are not part of the source tree
      a = run_helpers.create_agent(name, 3, (1099,))
      V.prove('of its class', isinstance(a, AGENTS[name][0]))
      o = np.full(1099, .5)
      V.prove('flies', int(a.begin_episode(o)) in (0, 1, 2) and
              int(a.step(0., o)) in (0, 1, 2))
  finally:
    os.chdir(back)
    shutil.rmtree(there)
    gin.clear_config()


# -- wind fields

@unit(con_max=20)
def wind_fields(V):
  """The two wind fields; others are refused."""
  name = V.choice('name', [*WIND, '', 'Simple', 'generative_wind_field'])
  kind, got = V.run(lambda: run_helpers.get_wind_field_factory(name))
  if name in WIND:
    V.prove('of that name', kind == 'ok' and got is WIND[name])
  else:
    V.prove('no such wind field', isinstance(got, ValueError))


# -- weights

LOADERS = {'offlineskies22': (models.load_offlineskies22,
                              'offlineskies22_decoder.msgpack'),
           'perciatelli44': (models.load_perciatelli44, 'perciatelli44.pb')}
ERRORS = {'missing': tf.errors.NotFoundError,
          'directory': tf.errors.FailedPreconditionError,
          'forbidden': tf.errors.PermissionDeniedError}


@per_case(LOADERS, con_max=60)
def weights(V, case):
  """From the path given or not at all; else from the package, else from the
  source tree, else refused."""
  load, name = case
  path = V.choice('path', [None, '/w', 'w', ''])
  given = V.choice('given', ['present', *ERRORS])
  packaged_ = V.choice('packaged', [True, False])
  source = V.choice('source', [True, False])
  seen = []

  def gfile(p, mode='r'):
    seen.append(str(p))
    V.prove('read as bytes', mode == 'rb')
    if path is not None and p == path:
      state = given
    else:
      V.prove('in the source tree',
              p == f'balloon_learning_environment/models/{name}')
      state = 'present' if source else 'missing'
    if state != 'present':
      raise ERRORS[state](None, None, 'injected')
    return io.BytesIO(b'path' if path is not None and p == path else b'source')

  def packaged_file(package, file):
    seen.append('package')
    V.prove('in the package', file == name and getattr(
        package, '__name__', package) == 'balloon_learning_environment.models')
    if not packaged_:
      raise FileNotFoundError(file)
    return io.BytesIO(b'package')
  V.patch(tf.io.gfile, 'GFile', gfile)
  V.patch(resources, 'open_binary', packaged_file)
  kind, got = V.run(lambda: load() if path is None else load(path))
  if path is not None:
    V.prove('the path or nothing', seen == [path])
    if given == 'present':
      V.prove('what is there', (kind, got) == ('ok', b'path'))
    else:
      V.prove('an unreadable path is refused', isinstance(got, ValueError))
  elif packaged_:
    V.prove('the packaged weights', (kind, got) == ('ok', b'package'))
  elif source:
    V.prove('the weights of the source tree', (kind, got) == ('ok', b'source'))
  else:
    V.prove('no weights', isinstance(got, RuntimeError))


@bounded_unit('files of sampled contents', con_n=12, con_budget=60)
def weights_on_disk(V):
  """Real files are read completely; directories are refused."""
  load, _ = V.choice('which', list(LOADERS.values()))
  data = bytes(int(V.int('byte', 0, 255)) for _ in range(
      V.choice('size', [0, 1, 50])))
  there = tempfile.mkdtemp()
  try:
    with open(f'{there}/w', 'wb') as f:
      f.write(data)
    V.prove('complete', load(f'{there}/w') == data)
    for bad in (there, f'{there}/x', f'{there}/w/y'):
      V.prove('refused', isinstance(V.run(lambda: load(bad))[1], ValueError))
  finally:
    shutil.rmtree(there)


# -- the training program

@unit(con_max=60)
def trained(V):
  """A training job trains the requested agent on the requested environment
  and wind field, in its own directory, and keeps the last picture."""
  log = []

  def note(name, value):
    def f(*a, **k):
      log.append((name, [*a, *[k[x] for x in sorted(k)]], k))
      return value
    return f
  renderer = V.choice('renderer', [None, 'matplotlib'])
  picture = V.choice('picture', [None, np.zeros((2, 2, 3))])
  V.assume(renderer is not None or picture is None)
  env = types.SimpleNamespace(
      action_space=types.SimpleNamespace(n=3),
      observation_space=types.SimpleNamespace(shape=(1099,)),
      render=note('render', picture))
  agent, wf, drawn = object(), object(), object()
  collectors = [object()]
  V.patch(run_helpers, 'bind_gin_variables', note('gin', None))
  V.patch(run_helpers, 'get_wind_field_factory', note('wind', wf))
  V.patch(run_helpers, 'create_agent', note('agent', agent))
  V.patch(train_lib, 'get_collector_data', note('collectors', collectors))
  V.patch(gym, 'make', note('make', env))
  V.patch(matplotlib.image, 'imsave', note('picture', None))
  V.patch(matplotlib_renderer.MatplotlibRenderer, '__new__',
          lambda cls, *a, **k: drawn)

  def loop(base_dir, env, agent, num_iterations, max_episode_length,
           collector_constructors, *, render_period=None,
           episodes_per_iteration=None, **k):
    log.append(('train', types.SimpleNamespace(**locals()), None))
  V.patch(train_lib, 'run_training_loop', loop)
  base, run = V.choice('base', ['/b', '/b/c']), V.choice('run', [0, 1, 12])
  n, length, period, episodes = (V.int(x, 1, 1000) for x in (
      'iterations', 'length', 'period', 'episodes'))
  name = V.choice('agent', ['dqn', 'random'])
  V.patch(train, 'FLAGS', types.SimpleNamespace(
      agent=name, env_name='Some-v0', num_iterations=n,
      max_episode_length=length, base_dir=base, run_number=run,
      wind_field='simple', agent_gin_file='a.gin', collectors=['console'],
      gin_bindings=['x.y = 1'], renderer=renderer, render_period=period,
      episodes_per_iteration=episodes))
  train.main(['train'])
  calls = {k: [x for m, x, _ in log if m == k] for k, _, _ in log}
  V.prove('collectors', calls['collectors'] == [[['console']]])
  V.prove('configuration', calls['gin'] == [[name, 'a.gin', ['x.y = 1']]])
  V.prove('wind field', calls['wind'] == [['simple']])
  made, = [(x, k) for m, x, k in log if m == 'make']
  V.prove('environment', made[0][0] == 'Some-v0' and
          made[1]['wind_field_factory'] is wf)
  V.prove('renderer', made[1].get('renderer') is (
      None if renderer is None else drawn))
  V.prove('agent', calls['agent'] == [[name, 3, (1099,)]])
  order = [m for m, _, _ in log]
  V.prove('configured before anything is built', order.index('gin') < min(
      order.index('make'), order.index('agent')))
  t, = calls['train']
  V.prove('trained', t.env is env and t.agent is agent and
          t.collector_constructors is collectors and not t.k)
  V.prove('in a directory of its own', t.base_dir == f'{base}/{name}/{run}')
  V.prove('as long as asked', V.And(
      V.eq(t.num_iterations, n), V.eq(t.max_episode_length, length),
      V.eq(t.render_period, period), V.eq(t.episodes_per_iteration, episodes)))
  if picture is None:
    V.prove('no picture', 'picture' not in calls)
  else:
    (where, what), = calls['picture']
    V.prove('the last picture', where == f'{base}/balloon_path.png' and
            what is picture and order[-3:] == ['train', 'render', 'picture'])


# -- the environment's name

@unit(con_max=10)
def registered(V):
  """The environment is registered with Gym once, by the name users know, and
  is the one of this package."""
  from gym.envs import registration

  class Registry(dict):

    @property
    def env_specs(self):
      return self

    def all(self):
      return list(self.values())
  spaces, log = [], []
  known = Registry({'CartPole-v0': object()})

  class Space:

    def __enter__(self):
      spaces.append(1)

    def __exit__(self, *a):
      spaces.pop()

  def register(id=None, entry_point=None, *a, **k):
    V.prove('in the root', not hasattr(registration, 'namespace') or spaces)
    log.append((id, entry_point))
    known[id] = entry_point
  V.patch(registration, 'registry', known)
  V.patch(registration, 'register', register)
  if V.choice('namespaces', [False, True]) and hasattr(
      registration, 'namespace'):
    V.patch(registration, 'namespace', lambda ns: Space())
  else:
    spaces.append(1)
  if V.choice('already', [False, True]):
    known['BalloonLearningEnvironment-v0'] = object()
    want = 0
  else:
    want = 1
  for _ in range(3):
    ble_gym.register_env()
  V.prove('once', len(log) == want)
  for name, where in log:
    V.prove('its name', name == 'BalloonLearningEnvironment-v0')
    if isinstance(where, str):
      module, cls = where.split(':')
      where = getattr(importlib.import_module(module), cls)
    V.prove('its class', where is balloon_env.BalloonEnv)

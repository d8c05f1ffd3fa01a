"""C42 the training schedule of the learning agents."""
import functools
import inspect
import types

from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.agents import dqn_agent as ble_dqn
from balloon_learning_environment.agents import exploration
from balloon_learning_environment.agents import networks
from balloon_learning_environment.agents import quantile_agent as ble_quantile
from dopamine.jax.agents.dqn import dqn_agent
from dopamine.jax.agents.quantile import quantile_agent
from props.networks_stub import *
from pyver.spec import unit, per_case, bounded_unit
import gin

# agent, its parent in the library, the library's learning rule, the module
AGENTS = {
    'dqn': (ble_dqn.DQNAgent, dqn_agent.JaxDQNAgent, dqn_agent, ble_dqn),
    'quantile': (ble_quantile.QuantileAgent, quantile_agent.JaxQuantileAgent,
                 quantile_agent, ble_quantile),
}
# what the learning rule is given, by the names of its parameters
GIVEN = dict(states='state', actions='action', next_states='next_state',
             rewards='reward', terminals='terminal')


class Writer:

  def __init__(self, log):
    self.log = log

  def scalar(self, tag, value, step):
    self.log.append(('loss', tag, value, step))

  def flush(self):
    pass


def learner(V, case, log, scheme='uniform', loss=None):
  """An agent in the middle of a training; its library, recorded."""
  cls, parent, rule, module = case
  a = V.obj(cls)
  a.training_steps = V.int('steps', 0, 10**7, pts=(0, 1))
  a.update_period = V.int('update_period', 1, 1000, pts=(1, 4))
  a.target_update_period = V.int('target_period', 1, 10**5, pts=(1, 100))
  a.summary_writing_frequency = V.int('frequency', 1, 10**5, pts=(1, 500))
  a.min_replay_history = V.int('history', 0, 10**5)
  a.summary_writer = Writer(log) if V.choice('writer', [True, False]) else None
  count = V.int('stored', 0, 10**7)
  a._replay = types.SimpleNamespace(
      add_count=count,
      set_priority=lambda i, p: log.append(('priority', i, p)))
  for name in ('network_def', 'online_params', 'target_network_params',
               'optimizer', 'optimizer_state', 'cumulative_gamma',
               '_loss_type', '_kappa', '_num_atoms'):
    setattr(a, name, name)
  a._replay_scheme = scheme
  a.replay_elements = 'stale'
  sampled = {n: 'sampled ' + n for n in GIVEN.values()}
  sampled['indices'] = 'sampled indices'

  def sample(self):
    log.append(('sample',))
    self.replay_elements = sampled
  V.patch(parent, '_sample_from_replay_buffer', sample)
  V.patch(parent, '_sync_weights', lambda self: log.append(
      ('sync', self.online_params)))
  signature = inspect.signature(raw(rule.train))

  def train(*args, **kw):
    log.append(('train', signature.bind(*args, **kw).arguments))
    out = ('new optimizer state', 'new params', 'loss' if loss is None else
           loss, 'mean loss')
    return out[:3] if rule is dqn_agent else out
  V.patch(rule, 'train', train)
  return a, sampled, count


@per_case(AGENTS, con_max=200)
def schedule(V, case):
  """Nothing is learnt before enough was seen; then updates, target updates
  and reports come at their periods."""
  log = []
  a, sampled, count = learner(V, case, log)
  n = a.training_steps
  ready = V.truth(count > a.min_replay_history)
  due = ready and V.truth(n % a.update_period == 0)
  sync = ready and V.truth(n % a.target_update_period == 0)
  report = due and a.summary_writer is not None and V.truth(
      n > 0) and V.truth(n % a.summary_writing_frequency == 0)
  a._train_step()
  V.prove('one more step', V.eq(a.training_steps, n + 1))
  kinds = [x[0] for x in log]
  V.prove('exactly what is due', sorted(kinds) == sorted(
      ['sample', 'train'] * due + ['loss'] * report + ['sync'] * sync))
  if due:
    V.prove('from a fresh sample', kinds[:2] == ['sample', 'train'])
    given = dict(log[1][1])
    V.prove('of what was flown', all(
        given[k] == sampled[v] for k, v in GIVEN.items()))
    V.prove('for these networks', given['online_params'] == 'online_params' and
            given['target_params'] == 'target_network_params' and
            given['network_def'] == 'network_def')
    V.prove('with this optimizer', given['optimizer'] == 'optimizer' and
            given['optimizer_state'] == 'optimizer_state')
    V.prove('discounted', given['cumulative_gamma'] == 'cumulative_gamma')
    for k, v in (('kappa', '_kappa'), ('num_atoms', '_num_atoms'),
                 ('loss_type', '_loss_type')):
      V.prove('as configured', k not in given or given[k] == v)
    V.prove('the loss as configured', len(given) == 12 + (
        case[2] is quantile_agent))
  V.prove('the networks', (a.online_params, a.optimizer_state) == (
      ('new params', 'new optimizer state') if due else
      ('online_params', 'optimizer_state')))
  V.prove('the target is left to its schedule',
          a.target_network_params == 'target_network_params')
  if sync:
    V.prove('the newest weights become the target',
            log[kinds.index('sync')][1] == a.online_params)
  if report:
    _, _, value, step = log[kinds.index('loss')]
    V.prove('the loss of this step', V.And(V.eq(step, n), value == (
        'loss' if case[2] is dqn_agent else 'mean loss')))


@unit(con_max=60)
def prioritized(V):
  """With prioritised replay what was sampled gets its loss as priority, and
  the reported loss is weighted by how likely the samples were."""
  log = []
  loss = V.array('loss', 2, 0, 100)
  a, sampled, count = learner(V, AGENTS['quantile'], log, 'prioritized', loss)
  V.patch(ble_quantile, 'jnp', Numbers(V))
  p = V.array('probability', 2, .001, 1)
  sampled['sampling_probabilities'] = p
  a.training_steps, a.update_period, a._replay.add_count = 4, 4, 9
  a.min_replay_history, a.summary_writing_frequency = 5, 2
  a.target_update_period = 3
  before = [V.const(x) if isinstance(x, int) else x for x in loss]
  a._train_step()
  kinds = [x[0] for x in log]
  V.prove('once', kinds.count('priority') == 1)
  _, index, priority = log[kinds.index('priority')]
  V.prove('of the samples', index == 'sampled indices')
  V.prove('their losses', len(priority) == 2 and V.And(*[V.And(
      V.le(0.0, x), V.eq(x * x, l + 1e-10))
      for x, l in zip(priority, before)]))
  if a.summary_writer is not None:
    weight = [1.0 / V.math('sqrt', x + 1e-10) for x in p]
    top = V.max(*weight)
    V.prove('reported', V.eq(
        2 * log[kinds.index('loss')][2],
        sum((l * (w / top) for l, w in zip(before, weight)), 0.0)))


@per_case(AGENTS, con_max=40)
def modes(V, case):
  """Agents learn in training mode only; other modes are refused."""
  cls, parent, _, _ = case
  a = V.obj(cls)
  log = []
  for name in ('begin_episode', 'step', 'end_episode'):
    V.patch(parent, name, lambda self, *a, name=name, **k: log.append(
        (name, self.eval_mode, a, k)) or 1)
  a._exploration_wrapper = exploration.Exploration(3, (1,))
  mode = V.choice('mode', ['train', 'eval', base_agent.AgentMode.TRAIN,
                           base_agent.AgentMode.EVAL])
  a.set_mode(V.choice('before', ['train', 'eval']))
  a.set_mode(mode)
  learning = base_agent.AgentMode(mode) == base_agent.AgentMode.TRAIN
  V.prove('mode', bool(a.eval_mode) == (not learning))
  for wrong in ('test', 'TRAIN', None, True):
    V.prove('refused', isinstance(V.run(lambda: a.set_mode(wrong))[1],
                                  ValueError))
  V.prove('mode kept', bool(a.eval_mode) == (not learning))
  r = V.real('reward', 0, 1)
  end = V.choice('terminal', [None, False, True])
  V.prove('actions of the library', a.begin_episode('o') == 1 and
          a.step(r, 'p') == 1)
  if end is None:
    a.end_episode(r)
  else:
    a.end_episode(r, end)
  V.prove('in order', [x[0] for x in log] == [
      'begin_episode', 'step', 'end_episode'] and all(
          x[1] is a.eval_mode for x in log))
  V.prove('what was seen', V.And(log[0][2] == ('o',), len(log[1][2]) == 2,
                                 V.eq(log[1][2][0], r), log[1][2][1] == 'p'))
  args = inspect.signature(lambda reward, terminal=True: 0).bind(
      *log[2][2], **log[2][3])
  args.apply_defaults()
  V.prove('how it ended', V.And(
      V.eq(args.arguments['reward'], r),
      args.arguments['terminal'] is (True if end is None else end)))


@per_case(AGENTS, con_max=40)
def construction(V, case):
  """The library gets the sizes, single precision observations one at a time,
  the network and the seed."""
  cls, parent, _, module = case
  log = []
  n, seed = V.int('actions', 2, 50), V.choice('seed', [None, 0, 7])
  shape = (V.int('features', 1, 5000),)

  def init(self, *a, **k):
    log.append((a, k))
    self.online_params = self.target_network_params = 'random'
    self.eval_mode = False
  init.__signature__ = inspect.signature(raw(parent.__init__))
  signature = inspect.signature(raw(parent.__init__))
  V.patch(parent, '__init__', init)
  made = []

  def network(*a, **k):
    made.append(k)
    return 'network'
  kw = dict(network=network, checkpoint_duration=V.choice('kept', [None, 3]))
  pretrained = False
  if case is AGENTS['quantile']:
    pretrained = V.choice('pretrained', [False, True])
    kw.update(exploration_wrapper_constructor=exploration.Exploration,
              reload_perciatelli=pretrained)
    V.patch(cls, 'load_perciatelli_weights',
            staticmethod(lambda: 'pretrained'))
  a = cls(n, shape, seed=seed, **kw)
  (args, given), = log
  got = signature.bind(a, *args, **given).arguments
  V.prove('actions', V.eq(got['num_actions'], n))
  V.prove('observations', V.And(
      len(got['observation_shape']) == 1,
      V.eq(got['observation_shape'][0], shape[0])))
  V.prove('in single precision', np.dtype(got['observation_dtype']) ==
          np.float32)
  V.prove('one at a time', got['stack_size'] == 1)
  V.prove('seed', got.get('seed') == seed)
  V.prove('its network', got['network'](num_actions=3) == 'network' and
          made[-1]['num_actions'] == 3 and bool(
              made[-1].get('is_dopamine')) == (cls is ble_dqn.DQNAgent))
  want = 'pretrained' if pretrained else 'random'
  V.prove('weights', a.online_params == want and
          a.target_network_params == want)


LAYERS = ['Online/fully_connected' + (f'_{i}' if i else '') for i in range(8)]


@unit(con_max=10)
def pretrained_layers(V):
  """Fine-tuning starts with the layers of Perciatelli44, each in its place,
  however the graph lists them."""
  values, nodes = {}, []
  for i, layer in enumerate(LAYERS):
    for part, shape in (('weights', (i + 2, i + 3)), ('biases', (i + 3,))):
      name = f'{layer}/{part}'
      values[name + ':0'] = np.arange(np.prod(shape), dtype=np.float32).reshape(
          shape) + 1000 * len(values)
      nodes += [name, name + '/read']
      values[f'{name.replace("Online", "Target")}:0'] = -values[name + ':0']
      nodes.append(name.replace('Online', 'Target'))
    nodes += [f'{layer}/MatMul', f'{layer}/Relu']
  order = V.choice('order', [list, lambda x: x[::-1], sorted])
  graph = types.SimpleNamespace(
      as_graph_def=lambda: types.SimpleNamespace(
          node=[types.SimpleNamespace(name=n) for n in order(nodes)]),
      get_tensor_by_name=lambda n: n)
  V.patch(ble_quantile.perciatelli44, 'load_perciatelli_session',
          lambda: types.SimpleNamespace(graph=graph,
                                        run=lambda name: values[name]))
  params = ble_quantile.QuantileAgent.load_perciatelli_weights()
  V.prove('one set of parameters', set(params) == {'params'})
  V.prove('all layers', set(params['params']) == {
      f'Dense_{i}' for i in range(8)})
  for i, layer in enumerate(LAYERS):
    got = params['params'][f'Dense_{i}']
    V.prove('its two parts', set(got) == {'kernel', 'bias'})
    V.prove('its weights', np.array_equal(
        got['kernel'], values[f'{layer}/weights:0']))
    V.prove('its biases', np.array_equal(
        got['bias'], values[f'{layer}/biases:0']))


@bounded_unit('the installed libraries; one small network, 40 steps in '
              'episodes of 7, training then evaluating', con_n=1, con_budget=120)
def trained_dqn(V):
  """With the real library: what is stored, when weights change, and that
  evaluation changes nothing."""
  trained(V, 'dqn')


@bounded_unit('the installed libraries; one small network, 40 steps in '
              'episodes of 7, training then evaluating', con_n=1, con_budget=120)
def trained_quantile(V):
  """The same of the quantile agent, exploring in every third step."""
  trained(V, 'quantile')


def trained(V, which):
  seed = int(V.int('seed', 0, 1000))
  cls = AGENTS[which][0]
  gin.clear_config()
  with gin.unlock_config():
    for k, v in dict(min_replay_history=10, update_period=3, update_horizon=1,
                     target_update_period=6).items():
      gin.bind_parameter(f'JaxDQNAgent.{k}', v)
    gin.bind_parameter('OutOfGraphReplayBuffer.batch_size', 2)
    gin.bind_parameter('OutOfGraphReplayBuffer.replay_capacity', 100)
    if which == 'quantile':
      gin.bind_parameter('JaxQuantileAgent.min_replay_history', 10)
      gin.bind_parameter('JaxQuantileAgent.update_period', 3)
      gin.bind_parameter('JaxQuantileAgent.update_horizon', 1)
      gin.bind_parameter('JaxQuantileAgent.target_update_period', 6)
      gin.bind_parameter('JaxQuantileAgent.num_atoms', 5)
      gin.bind_parameter('OutOfGraphPrioritizedReplayBuffer.batch_size', 2)
      gin.bind_parameter('OutOfGraphPrioritizedReplayBuffer.replay_capacity',
                         100)
  try:
    kw = {}
    if which == 'quantile':
      net = networks.QuantileNetwork
      kw.update(exploration_wrapper_constructor=Third, reload_perciatelli=False)
    else:
      net = networks.MLPNetwork
    a = cls(3, (4,), seed=seed, checkpoint_duration=None,
            network=functools.partial(net, num_layers=2, hidden_units=4), **kw)
  finally:
    gin.clear_config()
  rng = np.random.RandomState(seed)
  stored, changed, targets = [], [], []
  add = a._replay.add

  def record(o, act, r, t, *x, **k):
    stored.append((tuple(np.ravel(o).tolist()), int(act), float(r), bool(t)))
    return add(o, act, r, t, *x, **k)
  a._replay.add = record

  def weights(w):
    return [np.array(x) for x in jax.tree_util.tree_leaves(w)]

  def differ(x, y):
    return any(not np.array_equal(p, q) for p, q in zip(x, y))

  def fly(steps, flown):
    o = rng.uniform(size=4).astype(np.float32)
    act = a.begin_episode(o)
    for i in range(steps):
      w, t = weights(a.online_params), weights(a.target_network_params)
      V.prove('a legal action', 0 <= int(act) < 3)
      r = float(np.float32(rng.uniform()))
      flown.append((tuple(o.tolist()), int(act), r, i == steps - 1))
      if i == steps - 1:
        a.end_episode(r, True)
        break
      o = rng.uniform(size=4).astype(np.float32)
      before = a.training_steps, a._replay.add_count + 1
      act = a.step(r, o)
      changed.append((before, differ(w, weights(a.online_params))))
      targets.append((before, differ(t, weights(a.target_network_params))))
  flown = []
  a.set_mode('train')
  for _ in range(6):
    fly(7, flown)
  V.prove('what was flown is stored', stored == flown)
  for (n, count), different in changed:
    V.prove('updates', different == (count > 10 and n % 3 == 0))
  for (n, count), different in targets:
    V.prove('target updates', different <= (count > 10 and n % 6 == 0))
  V.prove('the target did change', any(d for _, d in targets))
  a.set_mode('eval')
  del stored[:], changed[:], targets[:]
  steps = a.training_steps
  fly(12, [])
  V.prove('evaluation leaves the agent as it was', not stored and
          a.training_steps == steps and not any(
              d for _, d in changed + targets))


class Third(exploration.Exploration):
  """Explores every third step."""

  def begin_episode(self, observation, action):
    self.n = 0
    return action

  def step(self, reward, observation, action):
    self.n += 1
    return action if self.n % 3 else (int(action) + 1) % 3

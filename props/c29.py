"""C29 training loop and metric collectors."""
import os
import pickle
import shutil
import tempfile
import types

from balloon_learning_environment import train_lib
from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.metrics import collector
from balloon_learning_environment.metrics import collector_dispatcher
from balloon_learning_environment.metrics import console_collector
from balloon_learning_environment.metrics import pickle_collector
from balloon_learning_environment.metrics import statistics_instance
from balloon_learning_environment.metrics import tensorboard_collector
from props.common import *
from pyver.spec import unit, per_case, bounded_unit
from flax.metrics import tensorboard
import tensorflow as tf

LOOP = 'balloon_learning_environment.train_lib:'
Stats = statistics_instance.StatisticsInstance


class World:
  """Ghost record of a training run: environment, agent and collectors."""

  def __init__(self, V, start=-1, ends=True, writers=(None, None)):
    self.V, self.start, self.ends, self.writers = V, start, ends, writers
    self.limit = None
    self.resets = self.begun = self.ended = self.saved = 0
    self.made, self.mode, self.summary, self.dirs = [], None, 'unset', []
    self.phase = 'new'          # new, between, flying, over, saved
    self.loops = []
    self.begin()

  def begin(self):
    self.steps, self.told, self.seen = 0, 0, [0] * len(self.writers)
    self.last, self.done, self.shown = 0.0, False, 0
    self.obs = types.SimpleNamespace(index=0)

  period = 1

  def shown_as_due(self):
    """The first transition of an episode and every period-th after it are
    shown once, the others not at all."""
    V, n = self.V, self.steps
    due = V.And(V.le(1, n), V.eq((n - 1) % self.period, 0))
    return V.eq(self.shown, V.ite(due, 1, 0))

  # what is checked when a call arrives
  def p(self, name, c):
    self.V.prove(name, c)


class Env:

  def __init__(self, w):
    self.w = w
    self.action_space = types.SimpleNamespace(n=3)

  def reset(self):
    self.w.begin()
    self.w.resets = self.w.resets + 1
    return self.w.obs

  def step(self, action):
    w = self.w
    w.p('stepped only while the episode lasts', not w.done)
    w.p('with the action the agent chose last', action is w.action)
    w.p('shown when due', w.shown_as_due())
    w.shown = 0
    w.last = w.V.real('reward', 0, 1)
    w.done = bool(w.ends and w.V.choice('terminal', [False, True]))
    w.steps = w.steps + 1
    w.obs = types.SimpleNamespace(index=w.steps)
    return w.obs, w.last, w.done, {}

  def render(self, *a, **k):
    self.w.shown = self.w.shown + 1


class Agent(base_agent.Agent):
  """Stand-in agent: checks what it is told, in order."""

  def __init__(self, w):
    self.w = w

  def act(self):
    self.w.action = object()
    return self.w.action

  def set_mode(self, mode):
    self.w.mode = mode

  def set_summary_writer(self, writer):
    self.w.summary = writer

  def reload_latest_checkpoint(self, directory):
    self.w.p('restored before anything is flown', self.w.phase == 'new')
    self.w.dirs.append(directory)
    return self.w.start

  def begin_episode(self, observation):
    w = self.w
    w.p('begun once, with the first observation of the episode',
        w.phase == 'between' and observation is w.obs)
    w.p('in training mode', w.mode in (base_agent.AgentMode.TRAIN, 'train'))
    w.phase, w.begun = 'flying', w.begun + 1
    return self.act()

  def step(self, reward, observation):
    w = self.w
    w.p('told of every transition once, in order', w.V.And(
        w.phase == 'flying', w.V.eq(w.told + 1, w.steps)))
    w.p('only of those that do not end the flight', not w.done)
    w.p('with the reward and the observation', w.V.And(
        w.V.eq(reward, w.last), observation is w.obs))
    w.told = w.told + 1
    return self.act()

  def end_episode(self, reward, terminal=True):
    w, V = self.w, self.w.V
    w.p('ended once, after the last transition', w.phase == 'flying')
    w.p('an episode lasts until it is over or at its limit', V.Or(
        w.done, V.eq(w.steps, w.limit)))
    w.p('shown when due', w.shown_as_due())
    w.p('told of every transition', V.eq(
        w.told, w.steps - (1 if w.done else 0)))
    w.p('told the final reward', V.eq(reward, w.last))
    w.p('told whether it was terminal', V.Iff(V.truth(terminal),
                                              V.truth(w.done)))
    w.phase, w.ended = 'between', w.ended + 1

  def save_checkpoint(self, directory, iteration):
    w = self.w
    self.on_save(directory, iteration)
    w.dirs.append(directory)
    w.saved = w.saved + 1


def collector_class(w, i):
  """The i-th recording collector of a run."""

  class C(collector.Collector):

    def __init__(self, base_dir, num_actions, current_episode):
      w.made.append((i, base_dir, num_actions, current_episode))
      self.summary_writer = w.writers[i]
      self.phase, self.episodes = 'new', 0

    def get_name(self):
      return f'recording{i}'

    def pre_training(self):
      w.p('training announced once', self.phase == 'new')
      self.phase = 'ready'

    def begin_episode(self):
      w.p('episode announced before its first step', self.phase == 'ready')
      self.phase = 'episode'
      self.fresh = True

    def step(self, s):
      V = w.V
      w.p('every transition reported once, in order', V.And(
          self.phase == 'episode', V.eq(w.seen[i] + 1, w.steps)))
      w.p('as it happened', V.And(
          V.eq(s.step, w.steps - 1), s.action is w.stepped_action(),
          V.eq(s.reward, w.last), V.Iff(V.truth(s.terminal),
                                        V.truth(w.done))))
      w.seen[i] = w.seen[i] + 1

    def end_episode(self, s):
      V = w.V
      w.p('the end of the episode reported once', self.phase == 'episode')
      w.p('after every transition', V.eq(w.seen[i], w.steps))
      w.p('with the length, the final reward and whether it was terminal',
          V.And(V.eq(s.step, w.steps), V.eq(s.reward, w.last), V.Iff(
              V.truth(s.terminal), V.truth(w.done))))
      self.phase, self.episodes = 'ready', self.episodes + 1

    def end_training(self):
      w.p('the end of training announced once', self.phase == 'ready')
      self.phase = 'end'
  C.instances = []
  return C


def run(w, iterations, limit, per, base='/nowhere', on_save=None):
  V = w.V
  agent = Agent(w)
  env = Env(w)
  w.limit = limit
  made = []

  def construct(i):
    cls = collector_class(w, i)

    def f(*a, **k):
      made.append(cls(*a, **k))
      return made[-1]
    return f
  act, step = agent.act, env.step

  # the action handed to the environment with the last step
  def stepping(action):
    w.flown = action
    return step(action)
  env.step = stepping
  w.stepped_action = lambda: w.flown
  agent.act = act
  agent.on_save = on_save or (lambda d, i: None)
  w.phase = 'new'
  w.collectors = made
  real_mode = agent.set_mode

  def set_mode(m):
    w.phase = 'between'
    real_mode(m)
  agent.set_mode = set_mode
  w.period = V.choice('render', [1, 3])
  train_lib.run_training_loop(
      base, env, agent, iterations, limit,
      [construct(i) for i in range(len(w.writers))], render_period=w.period,
      episodes_per_iteration=per)
  return agent


def after(w, start, per):
  V = w.V
  V.prove('every collector was created once, in order, numbering on from the '
          'checkpoint', len(w.made) == len(w.writers) and V.And(*[
              V.And(m[0] == i, m[1] == '/nowhere', V.eq(m[2], 3),
                    V.eq(m[3], start * per))
              for i, m in enumerate(w.made)]))
  V.prove('every collector saw the end of training',
          [c.phase for c in w.collectors] == ['end'] * len(w.writers))
  V.prove('the agent gets the first summary writer',
          w.summary is next((x for x in w.writers if x is not None), None))
  V.prove('restored from where it saves', all(
      d == os.path.join('/nowhere', 'checkpoints') for d in w.dirs))


@per_case({'no_collector': [], 'one': [None], 'two': [None, 'w1'],
           'writers': ['w0', 'w1']}, con_max=120, max_unroll=8)
def any_length(V, writers):
  """One episode of any length (loop contract with ghost counts)."""
  w = World(V, writers=tuple(writers))
  limit = V.int('max_episode_length', 0, 40 if V.concrete_mode else None)

  def inv(V, e):
    out = [('counted', V.And(V.eq(e['__k'] if '__k' in e else 0, w.steps),
                             V.le(w.steps, limit))),
           ('collectors know', V.And(*[V.eq(x, w.steps) for x in w.seen])),
           ('agent knows', V.eq(w.told, w.steps)),
           ('going on', not w.done and w.phase == 'flying'),
           ('chosen', e.a is w.action),
           ('shown', w.shown_as_due()),
           ('last reward', V.eq(e.r, w.last)),
           ('last flag', V.Not(V.truth(e.terminal))),
           ('length', V.eq(e.final_episode_step, limit))]
    return out

  def havoc(V, e):
    w.steps = V.fresh('steps', 'int')
    w.told, w.shown = V.fresh('told', 'int'), V.fresh('shown', 'int')
    w.seen = [V.fresh(f'seen{i}', 'int') for i in range(len(w.seen))]
    w.last = V.fresh('last', 'real')
    w.action = object()
  V.loop(LOOP + '_run_one_episode', 0, inv, havoc, kinds=dict(
      obs=lambda s: object(), a=lambda s: w.action, r='real',
      terminal=lambda s: False))
  run(w, 1, limit, 1)
  V.prove('one episode', w.resets == 1 and w.begun == 1 and w.ended == 1 and
          w.saved == 1)
  after(w, 0, 1)


@unit(con_max=150, max_unroll=8)
def any_count(V):
  """Any number of iterations and episodes, resuming after any checkpoint."""
  big = 4 if V.concrete_mode else None
  latest = V.int('latest', -1, big)
  w = World(V, latest, writers=(None,))
  want = V.int('iterations', 0, 6 if V.concrete_mode else None)
  per = V.int('per iteration', 0, big)
  start = latest + 1
  saves = types.SimpleNamespace(next=start)

  def on_save(directory, iteration):
    V.prove('each iteration is saved once, in order',
            V.eq(iteration, saves.next))
    V.prove('after all of its episodes', V.And(
        V.eq(w.ended, (iteration - start + 1) * per), w.phase == 'between'))
    saves.next = saves.next + 1

  def counts(k, done):
    return [('episodes', V.And(*[V.eq(x, done) for x in (
                w.resets, w.begun, w.ended)])),
            ('idle', w.phase == 'between' and all(
                c.phase == 'ready' for c in w.collectors)),
            ('saves', V.And(V.eq(saves.next, k), V.eq(w.saved, k - start)))]

  def outer(V, e):
    k = e['__k'] if '__k' in e else start
    w.k = k
    return counts(k, (k - start) * per)

  def inner(V, e):
    j = e['__k'] if '__k' in e else 0
    return counts(w.k, (w.k - start) * per + j)

  def havoc(V, e):
    n = V.fresh('episodes', 'int')
    w.resets = w.begun = w.ended = n
    w.dirs = w.dirs[:1]
    saves.next, w.saved = V.fresh('next', 'int'), V.fresh('saved', 'int')

  def havoc_inner(V, e):
    w.resets = w.begun = w.ended = V.fresh('episodes', 'int')
  V.loop(LOOP + 'run_training_loop', 0, outer, havoc)
  V.loop(LOOP + 'run_training_loop', 1, inner, havoc_inner)
  run(w, want, V.choice('limit', [1, 2]), per, on_save=on_save)
  todo = V.max(want - start, 0)
  V.prove('exactly the missing iterations', V.eq(w.saved, todo))
  V.prove('exactly the requested episodes', V.And(
      V.eq(w.begun, todo * per), V.eq(w.ended, todo * per)))
  after(w, start, per)


@unit(con_max=20)
def collectors_by_name(V):
  """Collectors are looked up by name, in order; unknown names are dropped."""
  known = dict(console=console_collector.ConsoleCollector,
               pickle=pickle_collector.PickleCollector,
               tensorboard=tensorboard_collector.TensorboardCollector)
  names = ['console', 'pickle', 'tensorboard', 'nobody', 'Console']
  asked = [V.choice(f'name{i}', names) for i in range(
      V.choice('n', [0, 1, 2, 3]))]
  V.prove('by name', train_lib.get_collector_data(asked) == [
      known[n] for n in asked if n in known])


class Written(list):
  pass


def statistics(V, n, actions=True):
  return [Stats(step=i, action=V.choice(f'action{i}', [0, 1, 2])
                if actions else 0, reward=V.real(f'reward{i}', -10, 10),
                terminal=False) for i in range(n)]


class Writer:
  """Stand-in for flax's summary writer."""
  made = []

  def __init__(self, path, *a, **k):
    self.path, self.log = path, []
    Writer.made.append(self)

  def scalar(self, tag, value, step):
    self.log.append((tag, value, step))

  def flush(self):
    pass


@per_case({'empty': 0, 'one': 1, 'two': 2, 'three': 3}, con_max=60)
def tensorboard_reports(V, n):
  """Reward and length of every episode, under its number."""
  V.patch(tensorboard, 'SummaryWriter', Writer)
  there = tempfile.mkdtemp()
  Writer.made.clear()
  try:
    first = V.int('current episode', 0, None, small=1000)
    fine = V.choice('fine grained', [False, True])
    every = V.choice('every', [1, 2])
    c = tensorboard_collector.TensorboardCollector(
        there, 3, first, fine_grained_logging=fine,
        fine_grained_frequency=every)
  finally:
    shutil.rmtree(there)
  V.prove('it has a writer', c.has_summary_writer() and
          c.summary_writer is Writer.made[0])
  c.pre_training()
  for episode in range(2):
    log = Writer.made[0].log
    del log[:]
    c.begin_episode()
    stats = statistics(V, n, False)
    for s in stats:
      c.step(s)
    end = Stats(step=V.int(f'length{episode}', 0, 960), action=0,
                reward=V.real(f'last{episode}', -10, 10), terminal=True)
    c.end_episode(end)
    got = {}
    for tag, value, step in log:
      got.setdefault(tag, []).append((value, step))
    for tag, value in (('Train/EpisodeReward',
                        sum(s.reward for s in stats) + end.reward),
                       ('Train/EpisodeLength', end.step)):
      (x, at), = got.pop(tag)
      V.prove(f'{tag} of what it was told', V.eq(x, value))
      V.prove(f'{tag} under the episode number', V.eq(at, first + episode))
    if fine:
      base = episode * (n + 1)
      want = [(s.reward, base + i) for i, s in enumerate(stats)
              if (base + i) % every == 0] + [(end.reward, base + n)]
      (tag, points), = got.items()
      V.prove('fine grained rewards at consecutive steps',
              len(points) == len(want) and V.And(*[
                  V.And(V.eq(x, r), V.eq(at, k))
                  for (x, at), (r, k) in zip(points, want)]))
    else:
      V.prove('nothing else', not got)
  V.prove('the next number', V.eq(c.current_episode, first + 2))
  c.end_training()


@per_case({'empty': 0, 'one': 1, 'two': 2}, con_max=40)
def pickle_reports(V, n):
  """One file for every episode, holding all of its statistics in order."""
  there = tempfile.mkdtemp()
  try:
    first = V.choice('current episode', [0, 7])
    c = pickle_collector.PickleCollector(there, 3, first)
    c.pre_training()
    for episode in range(2):
      c.begin_episode()
      stats = statistics(V, n)
      for s in stats:
        c.step(s)
      end = Stats(step=n, action=0, reward=V.real(f'last{episode}', -10, 10),
                  terminal=True)
      c.end_episode(end)
      files = {f: os.path.join(d, f) for d, _, fs in os.walk(there)
               for f in fs}
      V.prove('a file of its own', set(files) == {
          f'pickle_{first + e}.pkl' for e in range(episode + 1)})
      with open(files[f'pickle_{first + episode}.pkl'], 'rb') as f:
        data = pickle.load(f)
      V.prove('everything it was told, in order', len(data) == n + 1 and
              V.And(*[V.And(V.eq(a.step, b.step), V.eq(a.action, b.action),
                            V.eq(a.reward, b.reward),
                            a.terminal == b.terminal)
                      for a, b in zip(data, [*stats, end])]))
    c.end_training()
  finally:
    shutil.rmtree(there)
  V.prove('a directory is needed', isinstance(V.run(
      lambda: pickle_collector.PickleCollector(None, 3, 0))[1], ValueError))


@bounded_unit('sampled episodes up to 30 steps', con_n=60, con_budget=60)
def console_and_files(V):
  """What the console, the pickle and the log files report of an episode."""
  from absl import logging
  lines = []
  V.patch(logging, 'info', lambda s, *a: lines.append(s))
  there = tempfile.mkdtemp()
  try:
    first = int(V.int('first', 0, 500))
    fine = V.choice('fine grained', [False, True])
    every = V.choice('every', [1, 2, 5])
    save = V.choice('to file', [True, False])
    c = console_collector.ConsoleCollector(there, 3, first, fine, every, save)
    d = pickle_collector.PickleCollector(there, 3, first)
    k = collector_dispatcher.CollectorDispatcher(
        there, 3, [lambda *a: c, lambda *a: d], first)
    k.pre_training()
    text = []
    for episode in range(first, first + 2):
      n = int(V.int(f'n{episode - first}', 0, 30))
      k.begin_episode()
      stats = []
      for i in range(n + 1):
        stats.append(Stats(step=i, action=int(V.int('a', 0, 2)),
                           reward=float(V.real('r', 0, 1)), terminal=i == n))
        (k.step if i < n else k.end_episode)(stats[-1])
      with open(f'{there}/metrics/pickle/pickle_{episode}.pkl', 'rb') as f:
        V.prove('pickled', pickle.load(f) == stats)
      last = lines[-1].strip()
      text += [lines[-1]] if not fine else []
      V.prove('number, reward and length', last.startswith(
          f'Episode {episode}: reward: '
          f'{sum(s.reward for s in stats):07.2f}, episode length: {n}, '))
      counts = [sum(s.action == a for s in stats) for a in range(3)]
      shown = last.split('action distribution: ')[1].strip('[]').split()
      V.prove('distribution of the actions', len(shown) == 3 and all(
          abs(float(x) * (n + 1) - m) < 1e-5 for x, m in zip(shown, counts)))
      if fine:
        mine = [x for x in lines[:-1]]
        V.prove('steps', mine == [
            f'Step: {s.step}, action: {s.action}, reward: {s.reward}, '
            f'terminal: {s.terminal}\n' for s in stats[:-1]
            if s.step % every == 0])
        text += [*mine, last]
      del lines[:]
    k.end_training()
    log = f'{there}/metrics/console/console.log'
    V.prove('log file', os.path.exists(log) == save)
    if save:
      with open(log) as f:
        V.prove('everything is in the file', f.read() == ''.join(text))
  finally:
    shutil.rmtree(there)


@unit(con_max=20)
def refused_actions(V):
  """The console collector refuses actions outside the action space."""
  n = V.choice('actions', [1, 3])
  c = console_collector.ConsoleCollector(None, n, 0)
  c.begin_episode()
  a = V.int('action', -1000, 1000)
  r = V.run(lambda: c.step(Stats(step=0, action=a, reward=0., terminal=False))
           ) if V.truth(V.Or(a < 0, a >= n)) else None
  if r is not None:
    V.prove('refused', isinstance(r[1], ValueError))


@bounded_unit('one point: reported reward of a trained episode', con_n=1)
def reported_reward(V):
  """The reward reported for an episode is the sum of its rewards."""
  V.choice('point', [0])
  from absl import logging
  lines = []
  V.patch(logging, 'info', lambda s, *a: lines.append(s))

  class E:
    action_space = types.SimpleNamespace(n=3)

    def reset(self):
      return 0

    def step(self, a):
      return 0, 1.0, False, {}

    def render(self):
      pass
  there = tempfile.mkdtemp()
  try:
    train_lib.run_training_loop(
        there, E(), base_agent.RandomAgent(3, (1,)), 1, 5,
        [console_collector.ConsoleCollector], episodes_per_iteration=1)
  finally:
    shutil.rmtree(there)
  V.prove('5 steps of reward 1 are reported as 5',
          'reward: 0005.00' in lines[-1])


@bounded_unit('up to 250 iterations from up to the 1000th on, of up to 3 '
              'episodes of up to 3 steps', con_n=6, con_budget=60)
def many_iterations(V):
  """Long trainings are saved after each iteration, like short ones."""
  latest = int(V.int('latest', -1, 1000))
  w = World(V, latest, writers=(None, None))
  want = latest + 1 + int(V.int('iterations', 100, 250))
  per = V.choice('per iteration', [1, 2, 3])
  saved = []

  def on_save(directory, iteration):
    V.prove('after all of its episodes', w.phase == 'between' and
            w.ended == (iteration - latest) * per)
    saved.append(int(iteration))
  run(w, want, V.choice('limit', [1, 3]), per, on_save=on_save)
  V.prove('each iteration is saved once, in order',
          saved == list(range(latest + 1, want)))
  V.prove('exactly the requested episodes',
          w.begun == w.ended == len(saved) * per)
  after(w, latest + 1, per)


@bounded_unit('episodes of 500 to 3000 steps', con_n=4, con_budget=60)
def long_episodes(V):
  """Collectors report long episodes in full."""
  from absl import logging
  lines = []
  V.patch(logging, 'info', lambda s, *a: lines.append(s))
  V.patch(tensorboard, 'SummaryWriter', Writer)
  Writer.made.clear()
  rng = np.random.RandomState(int(V.int('draws', 0, 2**31 - 1)))
  there = tempfile.mkdtemp()
  try:
    k = collector_dispatcher.CollectorDispatcher(
        there, 3, [console_collector.ConsoleCollector,
                   pickle_collector.PickleCollector,
                   tensorboard_collector.TensorboardCollector], 0)
    k.pre_training()
    for episode in range(2):
      n = int(V.int(f'n{episode}', 500, 3000))
      k.begin_episode()
      stats = [Stats(step=i, action=int(rng.randint(3)),
                     reward=float(rng.rand()), terminal=i == n)
               for i in range(n + 1)]
      for s in stats[:-1]:
        k.step(s)
      k.end_episode(stats[-1])
      with open(f'{there}/metrics/pickle/pickle_{episode}.pkl', 'rb') as f:
        V.prove('pickled in full', pickle.load(f) == stats)
      total = sum(s.reward for s in stats)
      last = lines[-1].strip()
      told = last.split('reward: ')[1].split(',')
      V.prove('reward and length on the console',
              abs(float(told[0]) - total) < .006 and
              f'episode length: {n}, ' in last)
      shown = last.split('action distribution: ')[1].strip('[]').split()
      V.prove('distribution of the actions', all(
          abs(float(x) * (n + 1) - sum(s.action == a for s in stats)) < 1e-3
          for a, x in enumerate(shown)))
      got = {tag: (value, step) for tag, value, step in Writer.made[0].log}
      V.prove('reward and length for the board', np.isclose(
          got['Train/EpisodeReward'][0], total) and
          got['Train/EpisodeLength'] == (n, episode))
    k.end_training()
  finally:
    shutil.rmtree(there)

"""C26 the environment's step and reset."""
import copy
import time as time_module
import types

from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import features
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env import wind_field
from props.flight import *
from pyver.spec import unit, per_case, bounded_unit
import gym
import jax

STATUS = balloon.BalloonStatus
ENDS = {'out_of_power': STATUS.OUT_OF_POWER, 'envelope_burst': STATUS.BURST,
        'zeropressure': STATUS.ZEROPRESSURE}


class Arena(balloon_arena.BalloonArenaInterface):
  """Stand-in arena (C24): each step leads to an arbitrary state."""

  def __init__(self, V, state=None):
    self.V, self.state = V, state
    self.commands, self.resets = [], []
    self.after = None
    self.feature_constructor = types.SimpleNamespace(
        observation_space=gym.spaces.Discrete(7))

  def reset(self, seed=None):
    self.resets.append(seed)
    return np.zeros(3)

  def step(self, action):
    self.commands.append(action)
    if self.after:
      self.after(self)
    self.observation = np.array([len(self.commands), 1, 2])
    return self.observation

  def get_simulator_state(self):
    return simulator_data.SimulatorState(self.state, self, None)

  def set_simulator_state(self, s):
    self.state = s.balloon_state

  def get_balloon_state(self):
    return self.state

  def set_balloon_state(self, s):
    self.state = s

  def get_measurements(self):
    return None


class Renderer:
  render_modes = ['ansi']

  def __init__(self):
    self.log = []

  def reset(self):
    self.log.append('reset')

  def step(self, state):
    self.log.append(state.balloon_state)

  def render(self, mode):
    return 'frame ' + mode


def keys(V):
  """Keys are paths from the seed."""
  V.patch(jax.random, 'PRNGKey', lambda seed: (int(seed),))
  V.patch(jax.random, 'split', lambda key, num=2: [
      key + (i + 1,) for i in range(num)])


def make(V, **kw):
  keys(V)
  a = Arena(V, arbitrary_state(V))
  return balloon_env.BalloonEnv(arena=a, seed=3, **kw), a


@unit(con_max=200)
def step(V):
  """Observation, reward, terminal flag and info of every step, twice."""
  seen = []

  def reward(state):
    seen.append((state.balloon_state, state.balloon_state.pressure))
    return V.fun('reward', state.balloon_state.pressure, lo=0, hi=1)
  shown = Renderer() if V.choice('rendered', [True, False]) else None
  env, a = make(V, reward_function=reward, renderer=shown)

  def after(arena):
    s = arena.state
    s.status = V.choice('status', list(STATUS))
    s.pressure = V.real('new_pressure', 2000, 20000)
    s.time_elapsed = V.delta('new_elapsed', 0, 1e7)
  a.after = after
  for n in range(2):
    action = V.choice('action', [0, 1, 2])
    count = len(shown.log) if shown else 0
    out = env.step(action)
    V.prove('a quadruple', len(out) == 4)
    obs, r, terminal, info = out
    s = a.state
    V.prove('one arena step with the command', len(a.commands) == n + 1 and
            a.commands[n] == [CMD.DOWN, CMD.STAY, CMD.UP][action])
    V.prove('the observation of the arena', list(obs) == [n + 1, 1, 2])
    V.prove('the reward of the new state', V.eq(r, V.fun(
        'reward', s.pressure, lo=0, hi=1)))
    V.prove('terminal exactly when the flight ended',
            bool(terminal) == (s.status != OK))
    V.prove('info names how', all(
        bool(info[k]) == (s.status == x) for k, x in ENDS.items()))
    V.prove('info carries the elapsed time',
            V.eq(V.secs(info['time_elapsed']), V.secs(s.time_elapsed)))
    if shown:
      V.prove('shown once, after the step',
              len(shown.log) == count + 1 and shown.log[-1] is s)


@per_case({'minus_one': -1, 'three': 3, 'four': 4, 'large': 255, 'half': .5,
           'none': None, 'name': 'up'}, con_max=5)
def refused(V, action):
  """Other actions are refused before anything moves."""
  env, a = make(V)
  V.prove('refused', V.run(lambda: env.step(action))[0] == 'raise')
  V.prove('nothing moved', not a.commands)


@unit(con_max=60)
def seeding(V):
  """What the arena is reset with depends on the seed and the number of
  resets since, and never repeats within a run."""
  env, a = make(V)
  other, b = make(V)
  first = V.choice('history', [0, 1, 2])
  for _ in range(first):
    env.reset()
  env.step(1)
  number = V.choice('seed', [0, 3, 77])
  del a.resets[:], b.resets[:]
  env.reset(seed=number)
  other.reset(seed=number)
  n = V.choice('episodes', [1, 2, 3])
  for _ in range(n):
    env.reset()
    other.step(2)
    other.reset()
  V.prove('same seed, same episodes', a.resets == b.resets and
          len(a.resets) == n + 1)
  V.prove('from the seed alone', all(k[0] == number for k in a.resets))
  V.prove('every episode is new', len(set(a.resets)) == n + 1)
  V.prove('what was given out is not split again', all(
      p == q or p != q[:len(p)] for p in a.resets for q in a.resets))
  env.reset(seed=number)
  V.prove('the same seed again, the same episode again',
          a.resets[-1] == a.resets[0])


@unit(con_max=30)
def seed_then_reset(V):
  """seed() followed by reset() is reset with that seed."""
  env, a = make(V)
  other, b = make(V)
  number = V.choice('seed', [0, 3, 5])
  env.reset(seed=number)
  other.seed(number)
  other.reset()
  V.prove('alike', a.resets[-1] == b.resets[-1])


@unit(con_max=40)
def starting(V):
  """Construction resets once with the given seed (or the time); reset
  returns the first observation, and info when asked."""
  keys(V)
  V.patch(time_module, 'time', lambda: 1600000000.25)
  a = Arena(V, arbitrary_state(V))
  number = V.choice('seed', [None, 0, 8])
  shown = Renderer()
  env = balloon_env.BalloonEnv(arena=a, seed=number, renderer=shown)
  V.prove('reset once', len(a.resets) == 1)
  V.prove('with its seed', a.resets[0][0] == number if number is not None
          else a.resets[0][0] > 10**6)
  V.prove('renderer restarted with the first state',
          shown.log == ['reset', a.state])
  env.step(V.choice('action', [0, 1, 2]))
  a.state = copy.copy(a.state)
  a.state.time_elapsed = V.delta('elapsed_at_reset', 0, 1e7)
  a.state.status = V.choice('status', list(STATUS))
  obs, info = env.reset(return_info=True)
  V.prove('observation', len(obs) == 3 and not np.any(obs))
  V.prove('renderer restarted with the new state',
          shown.log[-2:] == ['reset', a.state])
  V.prove('info', all(bool(info[k]) == (a.state.status == x)
                      for k, x in ENDS.items()))
  V.prove('info time', V.eq(V.secs(info['time_elapsed']),
                            V.secs(a.state.time_elapsed)))
  V.prove('observation alone', isinstance(env.reset(), np.ndarray))
  V.prove('spaces', env.action_space == gym.spaces.Discrete(3) and
          env.observation_space == gym.spaces.Discrete(7) and
          tuple(env.reward_range) == (0, 1))
  km = V.real('radius_km', 1, 500)
  V.prove('the configured radius', V.eq(balloon_env.BalloonEnv(
      arena=a, seed=1, station_keeping_radius_km=km).radius.km, km))
  V.prove('50 km unless configured', V.eq(env.radius.km, 50))
  V.prove('the state is the arena state',
          env.get_simulator_state().balloon_state is a.state)
  V.prove('rendering', env.render('ansi') == 'frame ansi')
  bare = balloon_env.BalloonEnv(arena=Arena(V, a.state), seed=1)
  V.prove('nothing to render', bare.render() is None)


@unit(con_max=10)
def default_arena(V):
  """Without an arena one is built from the factories."""
  keys(V)
  log = []

  class Built(Arena):

    def __init__(self, factory, field, *a, **k):
      super().__init__(V, None)
      log.append((factory, field))
  V.patch(balloon_arena, 'BalloonArena', Built)
  field = object()
  factory = lambda f, atm: None
  env = balloon_env.BalloonEnv(feature_constructor_factory=factory,
                               wind_field_factory=lambda: field, seed=2)
  V.prove('built from the factories', log == [(factory, field)])
  V.prove('seeded', env.arena.resets[-1][0] == 2)


@bounded_unit('real environments on sampled seeds, up to 25 steps',
              con_n=4, con_budget=150)
def real_env(V):
  """Two real environments with one seed live through the same episode."""
  seed = int(V.int('seed', 0, 2**31))

  def new(s):
    return balloon_env.BalloonEnv(
        seed=s, wind_field_factory=wind_field.SimpleStaticWindField)
  a, b = new(1), new(2)
  rng = np.random.RandomState(seed % 2**31)
  o, p = a.reset(seed=seed), b.reset(seed=seed)
  V.prove('same start', np.array_equal(o, p))
  for n in range(25):
    c = int(rng.randint(3))
    x, y = a.step(c), b.step(c)
    V.prove('same step', np.array_equal(x[0], y[0]) and x[1:] == y[1:])
    V.prove('observation in its space', x[0].shape == (1099,) and
            a.observation_space.contains(x[0]))
    V.prove('reward in [0, 1]', 0 <= x[1] <= 1)
    V.prove('three minutes a step', x[3]['time_elapsed'] <= dt.timedelta(
        minutes=3) * (n + 1))
    if x[2]:
      break


@bounded_unit('flights of 1000 to 3000 steps', con_n=4, con_budget=60)
def long_flights(V):
  """No limit of its own: a flight goes on until the balloon is lost."""
  env, a = make(V, reward_function=lambda s: .25)
  a.state.status = OK
  if V.choice('reset', [False, True]):
    env.reset(seed=1)
  n = int(V.int('steps', 1000, 3000))

  def after(arena):
    arena.state.time_elapsed += dt.timedelta(minutes=3)
    if len(arena.commands) == n:
      arena.state.status = STATUS.OUT_OF_POWER
  a.after = after
  for i in range(n):
    obs, r, terminal, info = env.step(i % 3)
    V.prove('terminal exactly when the flight ended',
            bool(terminal) == (i + 1 == n) == bool(info['out_of_power']))
    V.prove('one arena step', len(a.commands) == i + 1 and obs[0] == i + 1)
    V.prove('rewarded', r == .25)
    V.prove('on the clock', info['time_elapsed'] == a.state.time_elapsed)
  V.prove('nobody started over', len(a.resets) <= 2)

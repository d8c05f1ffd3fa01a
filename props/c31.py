"""C31 exploration phases."""
import time as time_module
import types

from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.agents import exploration
from balloon_learning_environment.agents import marco_polo_exploration
from balloon_learning_environment.agents import quantile_agent as ble_quantile
from props.common import *
from pyver.spec import unit, per_case, bounded_unit
from dopamine.jax.agents.quantile import quantile_agent
import jax

POLICY, WALK = 80, 40         # agent steps of 3 minutes in 4 and 2 hours
CYCLE = POLICY + WALK


class Walker:
  """Stand-in exploratory agent."""

  def __init__(self, n, shape):
    self.made_with, self.log = (n, shape), []
    Walker.last = self

  def begin_episode(self, observation):
    self.log.append(('begin', observation))
    return 'walk at the beginning'

  def step(self, reward, observation):
    self.log.append(('step', reward, observation))
    return ('walk', len(self.log))

  def end_episode(self, *a):
    raise AssertionError


def draws(V, values):
  """Patches the draws of jax.random; returns the keys they were made with."""
  keys = []

  def draw(key):
    keys.append(tuple(int(x) for x in np.asarray(key).ravel()))
    return values[len(keys) - 1]
  V.patch(jax.random, 'uniform', lambda key, *a, **k: draw(key))
  V.patch(jax.random, 'bernoulli', lambda key, p=.5, *a, **k: draw(key) < p)
  return keys


def state(m):
  return {k: x for k, x in vars(m).items()
          if isinstance(x, (bool, int, float, dt.timedelta, np.bool_))}


@unit(con_max=12, max_unroll=5000, vc_timeout=20)
def phases(V):
  """Four hours of the policy, two of the walk, from the beginning of every
  exploratory episode; other episodes only follow the policy."""
  p = V.real('probability', 0, 1)
  u = [V.real(f'draw{i}', 0, 1) for i in range(2)]
  V.assume(V.And(*[V.Not(V.near(x, p, 1e-6)) for x in u]))
  keys = draws(V, u)
  m = marco_polo_exploration.MarcoPoloExploration(
      5, (3, 4), exploratory_episode_probability=p,
      exploratory_agent_constructor=Walker, seed=3)
  walker = Walker.last
  V.prove('the walk knows the environment', walker.made_with == (5, (3, 4)))
  for episode in range(2):
    del walker.log[:]
    obs, act = object(), object()
    V.prove('the first action is that of the policy',
            m.begin_episode(obs, act) is act)
    V.prove('the walk is begun', walker.log == [('begin', obs)])
    V.prove('one draw for each episode', len(keys) == episode + 1)
    explore = bool(V.truth(u[episode] <= p))
    seen = {}
    steps = V.choice(f'steps{episode}', [1, 83, 250, 1000])
    for k in range(1, steps + 1):
      del walker.log[:]
      obs, act, r = object(), object(), k / 8
      out = m.step(r, obs, act)
      walk = explore and k % CYCLE >= POLICY
      V.prove('the phase of this step', walker.log == (
          [('step', r, obs)] if walk else []))
      V.prove('the action of this phase',
              out == ('walk', 1) if walk else out is act)
  V.prove('draws are independent', len(set(keys)) == len(keys))


@unit(con_max=2, max_unroll=5000)
def any_length(V):
  """The state repeats after a cycle, so phases go on for ever like this.
  (Only if the state is made of flags and times; otherwise the episodes of
  the unit above, longer than any evaluated one, have to do.)"""
  draws(V, [0.0])
  m = marco_polo_exploration.MarcoPoloExploration(
      5, (3, 4), exploratory_episode_probability=1.0,
      exploratory_agent_constructor=Walker, seed=3)
  m.begin_episode(0, 1)
  walker = Walker.last
  pattern, states = [], [state(m)]
  for k in range(3 * CYCLE):
    n = len(walker.log)
    m.step(0., 0, 1)
    pattern.append(len(walker.log) > n)
    states.append(state(m))
  V.prove('the pattern repeats', pattern == 3 * pattern[:CYCLE])
  V.prove('its share of the time', sum(pattern[:CYCLE]) == WALK)
  if not V.concrete_mode:
    from pyver.values import Unsupported
    if states[CYCLE] != states[0]:
      raise Unsupported('the state of the wrapper is not periodic')
    V.prove('after a cycle everything is as in the beginning',
            states[CYCLE:] == states[:2 * CYCLE + 1])


@per_case({'always': 1.0, 'never': 0.0}, con_max=6)
def certain(V, p):
  """Probability one: every episode explores; zero: none does."""
  u = V.real('draw', 0.001, 0.999)
  draws(V, [u])
  m = marco_polo_exploration.MarcoPoloExploration(
      5, (3, 4), exploratory_episode_probability=p,
      exploratory_agent_constructor=Walker, seed=V.choice('seed', [0, 9]))
  m.begin_episode(0, 1)
  out = [m.step(0., 0, 1) for _ in range(POLICY)]
  V.prove('explores', (out[-1] != 1) == (p == 1.0) and out[:-1] == [1] * (
      POLICY - 1))


@unit(con_max=20)
def clock_seeds(V):
  """Without a seed, wrappers made at different times draw differently."""
  keys = draws(V, [.5] * 4)
  now = V.choice('now', [0.0, 1600000000.25, 1700000000.0])
  later = V.choice('later', [1, 60, 3601.5])
  for t in (now, now, now + later):
    V.patch(time_module, 'time', lambda t=t: t)
    m = marco_polo_exploration.MarcoPoloExploration(
        5, (3, 4), exploratory_episode_probability=.4,
        exploratory_agent_constructor=Walker)
    m.begin_episode(0, 1)
  V.prove('time decides', keys[0] != keys[2] and keys[1] != keys[2])


@bounded_unit('sampled seeds', con_n=6, con_budget=60)
def seeded(V):
  """Real draws: the share of exploratory episodes; the seed decides."""
  seed = int(V.int('seed', 0, 10000))
  p = V.choice('p', [.2, .8])
  out = []
  for _ in range(2):
    m = marco_polo_exploration.MarcoPoloExploration(
        5, (3, 4), exploratory_episode_probability=p,
        exploratory_agent_constructor=Walker, seed=seed)
    one = []
    for _ in range(60):
      m.begin_episode(0, 1)
      one.append([m.step(0., 0, 1) != 1 for _ in range(POLICY)][-1])
    out.append(one)
  V.prove('reproducible', out[0] == out[1])
  V.prove('the share', abs(sum(out[0]) / 60 - p) < .3)


@unit(con_max=10)
def pass_through(V):
  """The plain exploration returns the action of the policy always."""
  e = exploration.Exploration(5, (3, 4))
  for _ in range(3):
    a, o = V.int('a', 0, 4), object()
    V.prove('begin', V.eq(e.begin_episode(o, a), a))
    V.prove('step', V.eq(e.step(V.real('r', 0, 1), o, a), a))


@unit(con_max=20)
def wrapped(V):
  """The learning agent flies (and learns from) the explored action while
  training and its own while evaluating."""
  parent = quantile_agent.JaxQuantileAgent
  policy = {}

  def choose(self, *a):
    policy['asked'] = a
    policy['action'] = object()
    self.action = policy['action']
    return self.action
  V.patch(parent, 'begin_episode', choose)
  V.patch(parent, 'step', choose)
  log = []

  class Wrapper(exploration.Exploration):

    def begin_episode(self, observation, action):
      log.append((observation, action))
      return 'explored'

    def step(self, reward, observation, action):
      log.append((reward, observation, action))
      return 'explored'
  a = object.__new__(ble_quantile.QuantileAgent)
  a._exploration_wrapper = Wrapper(3, (1,))
  mode = V.choice('mode', [base_agent.AgentMode.TRAIN,
                           base_agent.AgentMode.EVAL, 'train', 'eval'])
  a.set_mode(mode)
  training = mode in ('train', base_agent.AgentMode.TRAIN)
  V.prove('mode', a.eval_mode is (not training))
  for k in range(3):
    o, r = object(), V.real('r', 0, 1)
    args = (o,) if k == 0 else (r, o)
    out = a.begin_episode(*args) if k == 0 else a.step(*args)
    V.prove('the policy is asked first', len(policy['asked']) == len(args) and
            all(x is y for x, y in zip(policy['asked'], args)))
    if training:
      x = log.pop()
      V.prove('exploration decides', out == 'explored' and not log and
              x[-1] is policy['action'] and x[-2] is o)
    else:
      V.prove('the policy decides', out is policy['action'] and not log)
    V.prove('what is learnt from is what was flown', a.action is out)
  V.prove('unknown modes are refused', isinstance(V.run(
      lambda: a.set_mode('test'))[1], ValueError))

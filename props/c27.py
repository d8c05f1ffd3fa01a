"""C27 evaluation of an agent on a suite."""
import json
import math
import types

from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.eval import eval_lib
from balloon_learning_environment.eval import suites
from props.flight import *
from pyver.spec import unit, per_case, bounded_unit

STATUS = balloon.BalloonStatus
STEPS = 'balloon_learning_environment.eval.eval_lib:eval_agent'
HOW = ('out_of_power', 'envelope_burst', 'zeropressure')


class Env:
  """Stand-in environment (C26) with ghost totals of what really happened."""

  def __init__(self, V, ends=True):
    self.V, self.ends = V, ends
    self.radius = units.Distance(km=V.real('radius_km', 1, 500))
    self.log, self.shown = [], 0
    self.missing = V.choice('info without flags', [False, True])
    self.begin()

  def begin(self):
    """Ghost state at the start of an episode."""
    self.steps, self.total, self.inside, self.done = 0, 0.0, 0, False
    self.last, self.obs, self.how = None, None, None

  def seed(self, n):
    self.log.append(('seed', n))

  def reset(self):
    self.log.append('reset')
    self.begin()
    self.obs = types.SimpleNamespace(index=0)
    return self.obs

  def step(self, action):
    V = self.V
    V.prove('stepped only while the episode lasts', not self.done)
    V.prove('with the action the agent chose last', action is self.agent.action)
    self.last = V.real('reward', 0, 1)
    x, y = V.real('x', -1e6, 1e6), V.real('y', -1e6, 1e6)
    self.state = types.SimpleNamespace(
        x=units.Distance(m=x), y=units.Distance(m=y),
        pressure=V.real('pressure', 2000, 20000),
        superpressure=V.real('superpressure', 0, 3000),
        time_elapsed=V.delta('elapsed', 0, 1e6),
        battery_soc=V.real('soc', 0, 1))
    d = V.math('sqrt', x * x + y * y)
    self.inside = self.inside + V.ite(d <= self.radius.m, 1, 0)
    self.total = self.total + self.last
    self.steps = self.steps + 1
    self.how = V.choice('ending', [None, *HOW]) if self.ends else None
    self.done = self.how is not None
    info = {k: k == self.how for k in HOW}
    if self.missing:
      info = {k: x for k, x in info.items() if x}
    self.obs = types.SimpleNamespace(index=self.steps)
    return self.obs, self.last, self.done, info

  def get_simulator_state(self):
    return types.SimpleNamespace(balloon_state=self.state)

  def render(self, *a, **k):
    self.shown += 1


class Agent(base_agent.Agent):
  """Stand-in agent: checks what it is told, in order."""

  def __init__(self, V, env):
    self.V, self.env, self.mode = V, env, None
    env.agent = self
    self.told, self.ended, self.phase = 0, 0, 'idle'

  def set_mode(self, mode):
    self.mode = mode

  def act(self):
    self.action = object()
    return self.action

  def begin_episode(self, observation):
    V = self.V
    V.prove('begun right after the reset', self.env.log[-1] == 'reset' and
            self.phase == 'idle' and observation is self.env.obs)
    V.prove('in evaluation mode', self.mode in (
        base_agent.AgentMode.EVAL, 'eval'))
    self.phase, self.told = 'flying', 0
    return self.act()

  def step(self, reward, observation):
    V = self.V
    V.prove('told of every transition once, in order', V.And(
        self.phase == 'flying', V.eq(self.told + 1, self.env.steps)))
    V.prove('told the reward and the observation', V.And(
        V.eq(reward, self.env.last), observation is self.env.obs))
    self.told = self.told + 1
    return self.act()

  def end_episode(self, reward, terminal=True):
    V = self.V
    V.prove('ended once, after every transition', V.And(
        self.phase == 'flying', V.eq(self.told, self.env.steps)))
    V.prove('told the final reward', V.eq(reward, self.env.last))
    V.prove('told whether it was terminal', V.Iff(V.truth(terminal),
                                                  V.truth(self.env.done)))
    self.phase = 'idle'
    self.ended += 1
    g = self.env
    self.episodes.append((g.steps, g.total, g.inside, g.how))

  episodes = ()


def report(V, name, r, seed, episode, limit):
  steps, total, inside, how = episode
  V.prove(name + 'its seed', V.eq(r.seed, seed))
  V.prove(name + 'the sum of the rewards', V.eq(r.cumulative_reward, total))
  V.prove(name + 'the number of steps', V.eq(r.final_timestep, steps))
  V.prove(name + 'never above the limit', V.le(r.final_timestep, limit))
  V.prove(name + 'the fraction of steps within the radius',
          V.eq(r.time_within_radius * steps, inside))
  V.prove(name + 'a fraction', V.And(V.le(0, r.time_within_radius),
                                     V.le(r.time_within_radius, 1)))
  V.prove(name + 'how the flight ended', all(
      bool(getattr(r, k)) == (how == k) for k in HOW))
  if how is None:
    V.prove(name + 'unfinished flights run to the limit',
            V.eq(r.final_timestep, limit))


@unit(con_max=150, max_unroll=8)
def any_length(V):
  """One seed, any number of steps (loop contract with ghost totals)."""
  env = Env(V)
  a = Agent(V, env)
  a.episodes = []
  limit = V.int('max_episode_length', 1, 40 if V.concrete_mode else None)
  seed = V.int('seed', 0, None, small=1000)

  def inv(V, e):
    out = [('counted', V.And(V.eq(e.step_count, env.steps),
                             V.le(env.steps, limit))),
           ('summed', V.eq(e.total_reward, env.total)),
           ('within', V.And(V.eq(e.steps_within_radius, env.inside),
                            env.inside >= 0, env.inside <= env.steps)),
           ('agent knows', V.eq(a.told, env.steps)),
           ('going on', not env.done and a.phase == 'flying'),
           ('chosen', e.action is a.action),
           ('no end yet', not (e.out_of_power or e.envelope_burst or
                               e.zeropressure))]
    if e.phase == 'entry':
      return out
    return out + [('last reward', V.And(V.eq(e.reward, env.last),
                                        env.steps >= 1)),
                  ('last flag', V.Not(V.truth(e.is_done)))]

  def havoc(V, e):
    env.steps = V.fresh('steps', 'int')
    env.total = V.fresh('total', 'real')
    env.inside = V.fresh('inside', 'int')
    env.last = V.fresh('last', 'real')
    a.told = V.fresh('told', 'int')
    env.obs = types.SimpleNamespace(index=-1)
    a.act()
  V.loop(STEPS, 1, inv, havoc, peel=True, kinds=dict(
      observation=lambda s: env.obs, reward='real', is_done=lambda s: False, action=lambda s: a.action,
      out_of_power=lambda s: False, envelope_burst=lambda s: False,
      zeropressure=lambda s: False),
      variant=lambda V, e: limit - e.step_count)
  out = eval_lib.eval_agent(a, env, suites.EvaluationSuite([seed], limit),
                            calculate_flight_path=False)
  V.prove('one result', len(out) == 1 and len(a.episodes) == 1)
  V.prove('seeded, then reset, once', len(env.log) == 2 and env.log[0][
      0] == 'seed' and env.log[1] == 'reset')
  V.prove('with the seed', V.eq(env.log[0][1], seed))
  report(V, '', out[0], seed, a.episodes[0], limit)


@per_case({'none': 0, 'one': 1, 'two': 2, 'three': 3}, con_max=100,
          max_paths=3000)
def any_seeds(V, n):
  """Every seed in order, each from a fresh start, with its flight path;
  everything arbitrary, up to three steps."""
  env = Env(V)
  a = Agent(V, env)
  a.episodes = []
  limit = 3 if n == 1 else 1
  seeds = [V.int(f'seed{i}', 0, None, small=1000) for i in range(n)]
  path = V.choice('path', [True, False])
  record = []
  real = env.step

  def step(action):
    out = real(action)
    record.append(env.state)
    return out
  env.step = step
  out = eval_lib.eval_agent(a, env, suites.EvaluationSuite(seeds, limit),
                            calculate_flight_path=path,
                            render_period=V.choice('period', [1, 2]))
  V.prove('one result for each seed', len(out) == n and len(a.episodes) == n)
  V.prove('seed, reset, seed, reset', len(env.log) == 2 * n and all(
      env.log[2 * i][0] == 'seed' and env.log[2 * i + 1] == 'reset'
      for i in range(n)))
  for i in range(n):
    V.prove('in order', V.eq(env.log[2 * i][1], seeds[i]))
    report(V, '', out[i], seeds[i], a.episodes[i], limit)
    mine, record = record[:a.episodes[i][0]], record[a.episodes[i][0]:]
    p = out[i].flight_path
    V.prove('flight path: every step or none',
            len(p) == (len(mine) if path else 0))
    for q, s in zip(p, mine):
      V.prove('flight path: where it was', V.And(*[
          V.eq(getattr(q, k), getattr(s, k)) for k in (
              'pressure', 'superpressure', 'battery_soc', 'time_elapsed')],
          V.eq(q.x.m, s.x.m), V.eq(q.y.m, s.y.m)))


@unit(con_max=20)
def refused(V):
  """A suite without steps is refused."""
  env = Env(V)
  a = Agent(V, env)
  n = V.int('length', -1000, 0)
  V.prove('refused', V.run(lambda: eval_lib.eval_agent(
      a, env, suites.EvaluationSuite([1], n)))[0] == 'raise')
  V.prove('nothing flown', not env.log)


@unit(con_max=60)
def encoding(V):
  """Results survive the json encoding, in kilometres and seconds."""
  s = eval_lib.SimpleBalloonState(
      units.Distance(m=V.real('x', -1e6, 1e6)),
      units.Distance(m=V.real('y', -1e6, 1e6)), V.real('p', 2000, 20000),
      V.real('sp', 0, 3000), V.delta('t', 0, 1e6), V.real('soc', 0, 1))
  d = eval_lib.EvalResultEncoder().default(s)
  V.prove('balloon state', V.And(
      V.eq(d['x'], s.x.m / 1000), V.eq(d['y'], s.y.m / 1000),
      V.eq(d['pressure'], s.pressure),
      V.eq(d['superpressure'], s.superpressure),
      V.eq(d['elapsed_seconds'], V.secs(s.time_elapsed)),
      V.eq(d['power'], s.battery_soc)))
  V.prove('its fields', sorted(d) == ['elapsed_seconds', 'power', 'pressure',
                                      'superpressure', 'x', 'y'])
  r = eval_lib.EvaluationResult(3, V.real('sum', 0, 960), V.real('twr', 0, 1),
                                True, False, False, 7, [s])
  e = eval_lib.EvalResultEncoder().default(r)
  V.prove('result', V.And(V.eq(e['cumulative_reward'], r.cumulative_reward),
                          V.eq(e['time_within_radius'], r.time_within_radius),
                          e['seed'] == 3, e['out_of_power'] is True,
                          e['envelope_burst'] is False,
                          e['zeropressure'] is False,
                          e['final_timestep'] == 7, e['flight_path'] == [s]))
  one = np.array([2.5])
  V.prove('arrays of one number',
          eval_lib.EvalResultEncoder().default(one) == 2.5)
  V.prove('other objects are refused', V.run(
      lambda: eval_lib.EvalResultEncoder().default(object()))[0] == 'raise')


@bounded_unit('sampled results', con_n=40, con_budget=20)
def json_round_trip(V):
  """json.dumps of real results reads back with the same numbers."""
  n = V.int('path', 0, 4, small=True)
  r = [eval_lib.EvaluationResult(
      i, V.real('sum', 0, 960), V.real('twr', 0, 1), V.bool('a'), V.bool('b'),
      V.bool('c'), int(V.int('n', 1, 960)), [
          eval_lib.SimpleBalloonState(
              units.Distance(m=V.real('x', -1e6, 1e6)), units.Distance(m=2.0),
              V.real('p', 2000, 20000), 1.0, dt.timedelta(seconds=int(k)), .5)
          for k in range(n)]) for i in range(2)]
  back = json.loads(json.dumps(r, cls=eval_lib.EvalResultEncoder))
  for q, d in zip(r, back):
    V.prove('the same', all(d[k] == getattr(q, k) for k in (
        'seed', 'cumulative_reward', 'time_within_radius', 'final_timestep',
        *HOW)) and [s['x'] for s in d['flight_path']] == [
            s.x.km for s in q.flight_path])


@bounded_unit('flights of 500 to 3000 steps, up to the limit or ended before',
              con_n=6, con_budget=60)
def long_flights(V):
  """Long flights are reported like short ones, every step on the path and
  rendered each time its turn comes."""
  rng = np.random.RandomState(int(V.int('winds', 0, 2**31 - 1)))
  limit = int(V.int('limit', 500, 3000))
  last = limit if V.choice('whole', [True, False]) else int(
      V.int('last', 490, limit))
  period = V.choice('period', [1, 7, 10])
  record = []

  class Long(Env):

    def step(self, action):
      self.V.prove('the action chosen last', action is self.agent.action)
      self.steps += 1
      self.last = rng.rand()
      x, y = rng.uniform(-60e3, 60e3, 2)
      self.state = types.SimpleNamespace(
          x=units.Distance(m=x), y=units.Distance(m=y),
          pressure=rng.uniform(5e3, 14e3), superpressure=rng.uniform(0, 3e3),
          time_elapsed=dt.timedelta(minutes=3 * self.steps),
          battery_soc=rng.rand())
      self.inside += bool(math.hypot(x, y) <= self.radius.m)
      self.total += self.last
      self.done = self.steps == last < limit
      self.how = HOW[0] if self.done else None
      self.obs = types.SimpleNamespace(index=self.steps)
      record.append(self.state)
      return self.obs, self.last, self.done, {k: k == self.how for k in HOW}
  env = Long(V)
  env.radius = units.Distance(km=50.0)
  a = Agent(V, env)
  a.episodes = []
  out = eval_lib.eval_agent(a, env, suites.EvaluationSuite([4, 9], limit),
                            calculate_flight_path=True, render_period=period)
  V.prove('a result for each', len(out) == len(a.episodes) == 2)
  V.prove('rendered once a period', abs(env.shown - 2 * last / period) <= 2)
  for r, seed, episode in zip(out, (4, 9), a.episodes):
    V.prove('flown to its end', episode[0] == last)
    V.prove('the sum', np.isclose(r.cumulative_reward, episode[1]))
    V.prove('the steps and the ending', r.seed == seed and
            r.final_timestep == last and r.out_of_power == (last < limit))
    V.prove('the share within the radius',
            np.isclose(r.time_within_radius * last, episode[2]))
    mine, record = record[:last], record[last:]
    V.prove('every step on the path', len(r.flight_path) == last and all(
        (q.x.m, q.y.m, q.pressure, q.superpressure, q.battery_soc,
         q.time_elapsed) == (s.x.m, s.y.m, s.pressure, s.superpressure,
                             s.battery_soc, s.time_elapsed)
        for q, s in zip(r.flight_path, mine)))

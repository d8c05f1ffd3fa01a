"""C32 baseline agents."""
import math
import time as time_module
import types

from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.agents import mlp_agent
from balloon_learning_environment.agents import perciatelli44
from balloon_learning_environment.agents import random_walk_agent
from balloon_learning_environment.agents import station_seeker_agent
from balloon_learning_environment.utils import sampling
from props.common import *
from pyver.spec import unit, per_case, bounded_unit
import gin
import jax

N, MID = 1099, 180
LO, SPAN = 5000.0, 9000.0


def observation(V, entries):
  """An observation that is zero but for the given entries."""
  f = np.zeros(N, dtype=object)
  f[:] = 0.0
  f[16:] = 1.0
  f[16::3] = 0.0             # every level unreachable
  for i, x in entries.items():
    f[i] = x
  return f.astype(float) if V.concrete_mode else f


def wind_entries(level, u, b, m):
  return {16 + 3 * level: u, 17 + 3 * level: b, 18 + 3 * level: m}


SEEKER = station_seeker_agent.StationSeekerAgent


def wind_value(V, b, m, d):
  """The published wind score: bearing b, magnitude m, distance d (all as
  features)."""
  distance = d * 250 / (1 - d)
  speed = m * 30 / (1 - m)
  ramp = V.min(V.max((distance - 250) / 250, 0), 1)
  weight = .6 + ramp * (.45 - .6)
  alpha = V.math('exp', -distance / 35)
  return ((1 - alpha) * V.math('exp', -weight * (b * math.pi)) +
          alpha * V.math('exp', -.07 * speed))


def score(level, u, wind):
  """The published score of a level with uncertainty u."""
  return ((1 - u + .01) * wind + u * .5 +
          .05 * math.exp(-.001 * abs(level - MID)))


def wind_contract(V, values):
  """The wind score by its contract (`published_wind`): in (0, 1].  `values`
  maps levels to (bearing, magnitude, distance); returns the wind scores."""
  if V.concrete_mode or not hasattr(SEEKER, 'wind_score'):
    return {l: wind_value(V, *w) for l, w in values.items()}
  out = {}
  for l in values:
    out[l] = V.real(f'wind{l}', 0, 1)
    V.assume(out[l] > 0)
  V.patch(SEEKER, 'wind_score', lambda self, named, level: out[level])
  return out


def arbitrary_wind(V, i):
  return (V.real(f'u{i}', 0, 1), V.real(f'b{i}', 0, 1),
          V.real(f'm{i}', 0, .99))


def seeker(V):
  return station_seeker_agent.StationSeekerAgent(3, (N,))


def toward(level):
  """Levels above the middle are at higher pressure, so below the balloon."""
  return 2 if level < MID else 0 if level > MID else 1


LEVELS = {'lowest': 0, 'below': 179, 'here': 180, 'above': 181,
          'highest': 360, 'far': 300}


@per_case(LEVELS, con_max=60)
def only_level(V, level):
  """With one reachable level, however bad, the seeker moves toward it."""
  w = arbitrary_wind(V, 0)
  V.assume(V.Or(w[0] > 0, w[1] < 1))
  d = V.real('d', 0, .99)
  wind_contract(V, {level: (w[1], w[2], d)})
  o = observation(V, {7: d, **wind_entries(level, *w)})
  a = seeker(V)
  V.prove('begin', a.begin_episode(o) == toward(level))
  V.prove('step', a.step(V.real('r', 0, 1), o) == toward(level))
  V.prove('ends', V.run(lambda: a.end_episode(V.real('r', 0, 1)))[0] == 'ok')


PAIRS = {'neighbours': (180, 181), 'around': (150, 200), 'both_up': (20, 90),
         'both_down': (200, 350), 'here_or_up': (3, 180)}


@per_case(PAIRS, con_max=200, vc_timeout=30)
def better_level(V, pair):
  """Of two reachable levels the seeker moves toward the better one."""
  ws = [arbitrary_wind(V, i) for i in range(2)]
  d = V.real('d', 0, .99)
  for w in ws:
    V.assume(V.Or(w[0] > .001, w[1] < .999))
  o = observation(V, {7: d, **wind_entries(pair[0], *ws[0]),
                      **wind_entries(pair[1], *ws[1])})
  wind = wind_contract(V, {l: (w[1], w[2], d) for l, w in zip(pair, ws)})
  s = [score(l, w[0], wind[l]) for l, w in zip(pair, ws)]
  margin = 1e-9 if V.concrete_mode else 0
  action = seeker(V).begin_episode(o)
  V.prove('a command', action in (0, 1, 2))
  V.prove('toward the first if it is better', V.Implies(
      s[0] > s[1] + margin, action == toward(pair[0])))
  V.prove('toward the second if it is better', V.Implies(
      s[1] > s[0] + margin, action == toward(pair[1])))


LATER = {'closer_by': 'distance', 'other_winds': 'winds',
         'other_reach': 'reach', 'other_doubts': 'doubts', 'all': 'all'}


@per_case(LATER, con_max=120, vc_timeout=30)
def in_flight(V, what):
  """The seeker answers every observation of a flight for itself: after any
  other observation, and another one that shares all but one part with it, it
  moves toward the level better now."""
  pair, other = V.choice('levels', [((150, 200), (100, 250)),
                                    ((20, 300), (180, 340))])
  ws = [arbitrary_wind(V, i) for i in range(2)]
  for w in ws:
    V.assume(V.Or(w[0] > .001, w[1] < .999))
  d = V.real('d', 0, .99)
  before, levels, was = list(ws), pair, d
  if what in ('distance', 'all'):
    was = V.real('was', 0, .99)
  if what in ('winds', 'all'):
    before = [(w[0],) + arbitrary_wind(V, f'before{i}')[1:]
              for i, w in enumerate(before)]
  if what in ('doubts', 'all'):
    before = [(V.real(f'doubt{i}', .001, 1),) + w[1:]
              for i, w in enumerate(before)]
  if what in ('reach', 'all'):
    levels = other
  for w in before:
    V.assume(V.Or(w[0] > .001, w[1] < .999))
  a = seeker(V)
  now = {}

  def wind_at(level):
    b, m, at = now[level]
    if V.concrete_mode or not hasattr(SEEKER, 'wind_score'):
      return wind_value(V, b, m, at)
    return V.fun('wind', b, m, at, lo=1e-6, hi=1)
  if V.symbolic and hasattr(SEEKER, 'wind_score'):
    V.patch(SEEKER, 'wind_score', lambda self, named, level: wind_at(level))
  for step, (at, ls, column) in enumerate([(was, levels, before),
                                           (d, pair, ws),
                                           (was, levels, before)]):
    now.clear()
    now.update({l: (w[1], w[2], at) for l, w in zip(ls, column)})
    o = observation(V, {7: at, **wind_entries(ls[0], *column[0]),
                        **wind_entries(ls[1], *column[1])})
    action = a.step(V.real('r', 0, 1), o) if step else a.begin_episode(o)
    s = [score(l, w[0], wind_at(l)) for l, w in zip(ls, column)]
    margin = 1e-9 if V.concrete_mode else 0
    for i in range(2):
      V.prove('toward the better one now', V.Implies(
          s[i] > s[1 - i] + margin, action == toward(ls[i])))


def named_features(V, entries):
  from balloon_learning_environment.env import features
  return features.NamedPerciatelliFeatures(observation(V, entries))


@per_case({'here': 180, 'far': 300}, con_max=60, vc_timeout=30)
def published_wind(V, level):
  """The wind score: the published formula, in (0, 1]."""
  _, b, m = w = arbitrary_wind(V, 0)
  d = V.real('d', 0, .99)
  if not hasattr(SEEKER, 'wind_score'):
    return
  x = seeker(V).wind_score(named_features(
      V, {7: d, **wind_entries(level, *w)}), level)
  V.prove('formula', V.eq(x, wind_value(V, b, m, d)))
  V.prove('positive', V.lt(0, x))
  V.prove('at most 1', V.le(x, 1))


@per_case(LEVELS, con_max=60, vc_timeout=30)
def published_score(V, level):
  """Score of a level: the published formula, above 0 and at most 1.06."""
  u, b, m = w = arbitrary_wind(V, 0)
  d = V.real('d', 0, .99)
  wind = wind_contract(V, {level: (b, m, d)})
  x = seeker(V).altitude_score(named_features(
      V, {7: d, **wind_entries(level, *w)}), level)
  V.prove('formula', V.eq(x, score(level, u, wind[level])))
  V.prove('positive', V.lt(0, x))
  V.prove('at most 1.06', V.le(x, 1.06))


SEARCH = ('balloon_learning_environment.agents.station_seeker_agent:'
          'StationSeekerAgent.find_best_pressure_level')


@unit(con_max=60, max_unroll=6)
def best_of_all(V):
  """The search returns a reachable level no reachable level beats, for any
  number of levels and any scores (loop contract, an arbitrary rival)."""
  n = 361 if V.concrete_mode else V.int('levels', 1, None)
  a = seeker(V)

  def points(k):
    return V.fun('score', k, lo=1e-6, hi=1.06)

  def valid(k):
    return V.fun('reach', k, lo=0, hi=1) > .5
  V.patch(station_seeker_agent.StationSeekerAgent, 'altitude_score',
          lambda self, f, k: points(k))
  j = V.int('rival', 0, 360 if V.concrete_mode else None)
  V.assume(V.And(j < n, valid(j)))
  named = types.SimpleNamespace(
      num_pressure_levels=n, level_is_valid=valid,
      wind_column_center=lambda: n // 2)

  def inv(V, e):
    k = e['__k'] if '__k' in e else 0
    best = e.best_pressure_level
    if best is None:
      return [('nothing so far', V.And(V.eq(e.best_score, 0),
                                       V.Not(j < k)))]
    return [('best is reachable', V.And(best >= 0, best < k, valid(best))),
            ('best score', V.And(V.eq(e.best_score, points(best)),
                                 e.best_score > 0)),
            ('unbeaten', V.Implies(j < k, e.best_score >= points(j)))]
  V.loop(SEARCH, 0, inv, kinds=dict(
      best_pressure_level=lambda s: s.fresh('best', 'int') if s.choice(
          'found', [True, False]) else None, best_score='real',
      scores=lambda s: np.zeros(1, dtype=object)))
  best, _ = a.find_best_pressure_level(named)
  V.prove('reachable', V.And(best >= 0, best < n, valid(best)))
  V.prove('unbeaten', points(best) >= points(j))


@unit(con_max=100)
def all_scores(V):
  """With the best level come the scores of all: zero where unreachable."""
  points = [V.real(f'score{i}', .01, 1.06) for i in range(4)]
  valid = [V.choice(f'reach{i}', [True, False]) for i in range(4)]
  V.assume(any(valid))
  V.patch(station_seeker_agent.StationSeekerAgent, 'altitude_score',
          lambda self, f, k: points[k])
  named = types.SimpleNamespace(
      num_pressure_levels=4, level_is_valid=lambda k: valid[k],
      wind_column_center=lambda: 2)
  best, scores = seeker(V).find_best_pressure_level(named)
  V.prove('one per level', len(scores) == 4)
  for i in range(4):
    V.prove('scores', V.eq(scores[i], points[i] if valid[i] else 0))
    if valid[i]:
      V.prove('unbeaten', V.le(points[i], scores[best]))


@unit(con_max=100)
def toward_the_best(V):
  """The command for every best level."""
  best = V.int('best', 0, 360)
  V.patch(station_seeker_agent.StationSeekerAgent, 'find_best_pressure_level',
          lambda self, f: (best, np.zeros(361)))
  a = seeker(V).begin_episode(observation(V, {}))
  V.prove('up to lower pressure', V.Iff(best < MID, a == 2))
  V.prove('down to higher pressure', V.Iff(best > MID, a == 0))
  V.prove('stay', V.Iff(V.eq(best, MID), a == 1))


# -- random walk

def walker(V, draws):
  """A random walk agent on given draws; returns it and the keys used."""
  keys, targets = [], []

  def note(key):
    keys.append(tuple(int(x) for x in np.asarray(key).ravel()))

  def start(key, *a, **k):
    note(key)
    targets.append(V.real(f'target{len(targets)}', 6500, 11400))
    return targets[-1]

  def normal(key, *a, **k):
    note(key)
    return next(draws)
  V.patch(sampling, 'sample_pressure', start)
  V.patch(jax.random, 'normal', normal)
  return random_walk_agent.RandomWalkAgent(3, (N,), seed=5), keys, targets


@unit(con_max=20)
def clock_seeds(V):
  """Without a seed, agents made at different times walk differently."""
  keys = []
  V.patch(sampling, 'sample_pressure', lambda key, *a, **k: keys.append(
      tuple(int(x) for x in np.asarray(key).ravel())) or 9000.0)
  now = V.choice('now', [0.0, 1600000000.25, 1700000000.0])
  later = V.choice('later', [1, 60, 3601.5])
  for t in (now, now + later):
    V.patch(time_module, 'time', lambda t=t: t)
    random_walk_agent.RandomWalkAgent(3, (N,)).begin_episode(
        observation(V, {0: .5}))
  n = len(keys) // 2
  V.prove('time decides', n >= 1 and keys[n - 1] != keys[-1])


def walk_rule(V, action, p, target):
  near = 1e-6 if V.concrete_mode else 0
  V.prove('a command', V.Or(*[V.eq(int(action), k) for k in range(3)]))
  V.prove('up when the target is well below the pressure', V.Implies(
      p - 100 > target + near, action == CMD.UP))
  V.prove('down when it is well above', V.Implies(
      p + 100 < target - near, action == CMD.DOWN))
  V.prove('stay within 100 Pa', V.Implies(V.And(
      p - 100 < target - near, p + 100 > target + near),
                                          action == CMD.STAY))


@unit(con_max=60, max_paths=3000)
def random_walk(V):
  """Two episodes of two steps: a fresh target, then a Gaussian walk whose
  scale grows with the time flown; every draw has its own key."""
  draws = iter([V.real(f'draw{i}', -6, 6) for i in range(4)])
  values = []

  def recorded():
    for x in draws:
      values.append(x)
      yield x
  a, keys, targets = walker(V, recorded())
  for episode in range(2):
    f = V.real(f'p{episode}', 0, 1)
    made = len(targets)
    action = a.begin_episode(observation(V, {0: f}))
    V.prove('a new target for every episode', len(targets) == made + 1)
    target = targets[-1]
    walk_rule(V, action, LO + f * SPAN, target)
    for k in (1, 2)[:2 - episode]:
      f = V.real(f'p{episode}{k}', 0, 1)
      used = len(values)
      action = a.step(V.real('r', 0, 1), observation(V, {0: f}))
      V.prove('one draw each step', len(values) == used + 1)
      target = target + k * 180 * .1666 * values[-1]
      walk_rule(V, action, LO + f * SPAN, target)
    a.end_episode(V.real('r', 0, 1))
  V.prove('every draw has its own key', len(set(keys)) == len(keys))


@unit(con_max=60)
def walk_step(V):
  """One step from any target after any time in flight."""
  draw = V.real('draw', -6, 6)
  a, _, _ = walker(V, iter([draw]))
  target, flown = V.real('now', -1e5, 1e5), V.delta('flown', 0, 1e6)
  a._target_pressure, a._time_elapsed = target, flown
  f = V.real('p', 0, 1)
  action = a.step(V.real('r', 0, 1), observation(V, {0: f}))
  walk_rule(V, action, LO + f * SPAN,
            target + (V.secs(flown) + 180) * .1666 * draw)
  V.prove('time flown', V.eq(V.secs(a._time_elapsed), V.secs(flown) + 180))


@bounded_unit('sampled seeds, 60 steps', con_n=4, con_budget=60)
def walks_differ(V):
  """Real draws: reproducible by seed, every observation size is checked."""
  seed = int(V.int('seed', 0, 10 ** 6))
  ps = [float(V.real('p', 0, 1)) for _ in range(60)]
  runs = []
  for s in (seed, seed, seed + 1):
    a = random_walk_agent.RandomWalkAgent(3, (N,), seed=s)
    one = [int(a.begin_episode(observation(V, {0: ps[0]})))]
    one += [int(a.step(0., observation(V, {0: p}))) for p in ps[1:]]
    runs.append(one)
  V.prove('reproducible', runs[0] == runs[1])
  V.prove('seeds differ', runs[0] != runs[2])
  V.prove('commands', set(runs[0]) <= {0, 1, 2})
  V.prove('other observations are refused', V.run(
      lambda: a.step(0., np.zeros(1098)))[0] == 'raise')


# -- random agent

@bounded_unit('3000 draws', con_n=3, con_budget=60)
def random_agent(V):
  """Uniform over the legal actions."""
  n = V.choice('n', [1, 3, 7])
  np.random.seed(int(V.int('seed', 0, 1000)))
  a = base_agent.RandomAgent(n, (N,))
  out = [a.begin_episode(np.zeros(N)) for _ in range(1500)] + [
      a.step(0., np.zeros(N)) for _ in range(1500)]
  V.prove('uniform', all(abs(out[h:h + 1500].count(k) / 1500 - 1 / n) < .08
                         for k in range(n) for h in (0, 1500)))
  V.prove('legal', set(out) == set(range(n)))


@unit(con_max=20)
def random_draw(V):
  """Whatever the generator draws below the number of actions is legal."""
  n = V.int('actions', 1, 1000)
  if V.concrete_mode:
    a = base_agent.RandomAgent(int(n), (N,))
    V.prove('legal', 0 <= a.begin_episode(0) < n and 0 <= a.step(0., 0) < n)
    return
  log = []

  def randint(low, high=None, *a, **k):
    if high is None:
      low, high = 0, low
    log.append(V.fresh('drawn', 'int'))
    V.assume(V.And(low <= log[-1], log[-1] < high))
    V.prove('all legal actions can be drawn', V.And(low <= 0, high >= n))
    return log[-1]
  V.patch(np.random, 'randint', randint)
  a = base_agent.RandomAgent(n, (N,))
  for x in (a.begin_episode(object()), a.step(V.real('r', 0, 1), object())):
    V.prove('legal', V.And(0 <= x, x < n))
  a.end_episode(V.real('r', 0, 1))
  V.prove('nothing to restore', a.reload_latest_checkpoint('/nowhere') == -1)
  V.prove('its name', a.get_name() == 'RandomAgent')


# -- frozen and learning agents

class Session:
  """Stand-in for the frozen network: arbitrary values."""

  def __init__(self, V):
    self.V, self.fed = V, []
    self.graph = types.SimpleNamespace(get_tensor_by_name=lambda n: n)

  def run(self, what, feed_dict):
    (name, o), = feed_dict.items()
    self.fed.append((what, name, o))
    self.q = [self.V.real(f'q{len(self.fed)}_{i}', -100, 100)
              for i in range(3)]
    return np.array([self.q], dtype=object if not self.V.concrete_mode
                    else float)


@unit(con_max=60)
def frozen(V):
  """Perciatelli44 flies the action of the highest value."""
  s = Session(V)
  V.patch(perciatelli44, 'load_perciatelli_session', lambda: s)
  a = perciatelli44.Perciatelli44(3, V.choice('shape', [[N], (N,)]))
  o = np.arange(N) / N
  for k in range(2):
    x = a.begin_episode(o) if k == 0 else a.step(V.real('r', 0, 1), o)
    what, name, fed = s.fed[-1]
    V.prove('values of this observation', what == 'q_values:0' and
            name == 'observation:0' and fed.shape == (1, N) and
            (fed[0] == o).all())
    V.prove('the best action', V.And(*[V.Implies(
        V.eq(x, i), V.And(*[s.q[i] >= q for q in s.q])) for i in range(3)]))
    V.prove('legal', x in (0, 1, 2))
  for bad in ((2, [N]), (4, [N]), (3, [N + 1]), (3, [1, N])):
    V.prove('other environments are refused', isinstance(V.run(
        lambda: perciatelli44.Perciatelli44(*bad))[1], ValueError))


@bounded_unit('sampled observations, a small network', con_n=8, con_budget=60)
def mlp(V):
  """The MLP agent: greedy, learns in training mode only, from the flown
  transitions."""
  gin.clear_config()
  gin.parse_config('MLPNetwork.num_layers = 2\nMLPNetwork.hidden_units = 5')
  try:
    a = mlp_agent.MLPAgent(3, (4,), seed=int(V.int('seed', 0, 99)))
    obs = [np.array([float(V.real('o', -1, 1)) for _ in range(4)])
           for _ in range(3)]
    q = lambda p, o: np.asarray(a.network_def.apply(p, o))
    a.set_mode(V.choice('eval', [base_agent.AgentMode.EVAL, 'eval']))
    before = a.network_params
    acts = [a.begin_episode(obs[0]), a.step(1., obs[1])]
    V.prove('greedy', all(int(x) == int(np.argmax(q(before, o)))
                          for x, o in zip(acts, obs)))
    same = jax.tree_util.tree_map(lambda x, y: bool((x == y).all()), before,
                                  a.network_params)
    V.prove('evaluation does not learn', all(
        jax.tree_util.tree_leaves(same)))
    a.set_mode(V.choice('train', [base_agent.AgentMode.TRAIN, 'train']))
    x = a.begin_episode(obs[0])
    y = a.step(70., obs[1])
    V.prove('acts on the old values', int(y) == int(np.argmax(
        q(before, obs[1]))))

    def updated(params, o, x, reward, o2, x2):
      """One SARSA step of the published rule."""
      def loss(p):
        return (a.network_def.apply(p, o)[x] - reward -
                .9 * a.network_def.apply(p, o2)[x2]) ** 2
      return jax.tree_util.tree_map(lambda p, g: p - .001 * g, params,
                                    jax.grad(loss)(params))

    def same_params(p, w):
      return all(jax.tree_util.tree_leaves(jax.tree_util.tree_map(
          lambda p, w: bool(np.allclose(p, w, atol=1e-9, rtol=1e-5)), p, w)))
    V.prove('one gradient step on the flown transition', same_params(
        a.network_params, updated(before, obs[0], x, 70., obs[1], y)))
    middle = a.network_params
    z = a.step(-20., obs[2])
    V.prove('the next transition starts where this one ended', same_params(
        a.network_params, updated(middle, obs[1], y, -20., obs[2], z)))
    x = a.begin_episode(obs[2])
    middle = a.network_params
    y = a.step(50., obs[0])
    V.prove('a new episode starts a new transition', same_params(
        a.network_params, updated(middle, obs[2], x, 50., obs[0], y)))
    V.prove('ends', V.run(lambda: a.end_episode(.5))[0] == 'ok')
  finally:
    gin.clear_config()

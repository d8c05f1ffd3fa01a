"""C24 the arena: reset, step, state access."""
import math
import time as time_module
import types

from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.utils import sampling
from props.flight import *
from pyver.spec import unit, per_case, bounded_unit
import jax

STEP_S = 180


class Winds(wind_field.WindField):
  """Stand-in wind field: an arbitrary function of place and time."""

  def __init__(self, V, name='wind'):
    self.V, self.name, self.resets, self.asked = V, name, [], []

  def reset(self, key, date_time):
    self.resets.append((key, date_time))

  def reset_forecast(self, key, date_time):
    raise AssertionError('only part of the wind was reset')

  def get_forecast(self, x, y, pressure, elapsed_time):
    raise AssertionError('the arena asked for a forecast')

  def at(self, x, y, p, t):
    """Components in m/s at x [m], y [m], p [Pa], t [s]."""
    return (self.V.fun(self.name + '_u', x, y, p, t, lo=-100, hi=100),
            self.V.fun(self.name + '_v', x, y, p, t, lo=-100, hi=100))

  def get_ground_truth(self, x, y, pressure, elapsed_time):
    u, v = self.at(x.m, y.m, pressure, self.V.secs(elapsed_time))
    return wind_field.WindVector(units.Velocity(mps=u), units.Velocity(mps=v))


class Constructor:
  """Stand-in feature constructor: the features name the last observation."""
  made = ()

  def __init__(self, forecast, atmosphere):
    Constructor.made.append(self)
    self.forecast, self.atmosphere, self.seen = forecast, atmosphere, []
    self.resets_before = len(forecast.resets)

  def observe(self, observation):
    self.seen.append(observation)
    s, w = observation.balloon_observation, observation.wind_at_balloon
    self.last = (s.x.m, s.y.m, s.pressure, self.V.secs(s.time_elapsed),
                 w.u.mps, w.v.mps)

  def get_features(self):
    out = np.empty(6, dtype=object)
    out[:] = self.last
    return out


class Keys:
  """Keys are paths from the seed; a draw is a function of its key."""

  def __init__(self, V):
    self.V, self.ids, self.log, self.fixed = V, {}, [], {}
    V.patch(jax.random, 'PRNGKey', self.make)
    V.patch(jax.random, 'split', self.split)
    V.patch(jax.random, 'beta', self.beta)
    V.patch(jax.random, 'uniform', self.uniform)

  def make(self, seed):
    self.seed = seed
    return np.array([int(seed)])

  def split(self, key, num=2):
    return [np.concatenate([key, [i + 1]]) for i in range(num)]

  def draw(self, kind, key, lo, hi):
    ident = tuple(int(i) for i in key)
    self.log.append((kind, ident))
    if kind in self.fixed:
      return self.fixed[kind]
    return self.V.fun(kind, float(self.ids.setdefault(
        ident, len(self.ids))), lo=lo, hi=hi)

  def beta(self, key, a, b, *args, **kw):
    self.V.prove('documented distribution of the distance',
                 a == 1.2 and b == 2.0)
    return types.SimpleNamespace(item=lambda: self.draw('beta', key, 0, 1))

  def uniform(self, key, shape=(), dtype=None, minval=0., maxval=1.):
    return minval + (maxval - minval) * self.draw('uniform', key, 0, 1)


def world(V):
  """Contracts of everything the arena calls; -> rec."""
  rec = types.SimpleNamespace(stable=[], moves=[])
  Constructor.made, Constructor.V = [], V
  rec.keys = keys = Keys(V)
  V.patch(solar, 'get_next_sunrise_sunset', lambda *a, **k: (
      T0 + dt.timedelta(hours=3), T0 + dt.timedelta(hours=14)))
  V.patch(spherical_geometry, 'calculate_latlng_from_offset',
          lambda *a, **k: HERE)

  def time(key, *a, **k):
    rec.time_key = key
    return T0 + dt.timedelta(minutes=1) * (sum(
        (i + 1) * int(x) for i, x in enumerate(key)) % 100000)
  V.patch(sampling, 'sample_time', time)

  def location(key):
    keys.draw('location', key, 0, 1)
    rec.location = s2.LatLng.from_degrees(1.0, 2.0)
    return rec.location
  V.patch(sampling, 'sample_location', location)

  def pressure(key, atmosphere):
    rec.pressure_resets = len(rec.atmosphere_resets)
    rec.pressure_atmosphere = atmosphere
    return keys.draw('pressure', key, 2000, 20000)
  V.patch(sampling, 'sample_pressure', pressure)
  V.patch(sampling, 'sample_upwelling_infrared',
          lambda key, *a, **k: keys.draw('infrared', key, 100, 350))

  def stable(state, atmosphere):
    rec.stable.append((state, atmosphere, len(rec.atmosphere_resets)))
    state.mols_air = 123.0
  V.patch(stable_init, 'cold_start_to_stable_params', stable)
  rec.atmosphere_resets = []
  V.patch(standard_atmosphere.Atmosphere, 'reset',
          lambda self, key: rec.atmosphere_resets.append((self, key)))
  V.patch(standard_atmosphere.Atmosphere, '__init__',
          lambda self, *a, **k: None)

  def simulate(self, wind_vector, atmosphere, action, time_delta, stride=(
      dt.timedelta(seconds=10))):
    s = self.state
    rec.moves.append(dict(state=s, before=snapshot(s), wind=wind_vector, atmosphere=atmosphere,
                          action=action, time=time_delta, stride=stride,
                          seen=len(Constructor.made[-1].seen)))
    s.last_command = action
    s.x = units.Distance(m=V.real('new_x', -1e6, 1e6))
    s.y = units.Distance(m=V.real('new_y', -1e6, 1e6))
    s.pressure = V.real('new_pressure', 2000, 20000)
    s.time_elapsed = s.time_elapsed + time_delta
  V.patch(balloon.Balloon, 'simulate_step', simulate)
  return rec


def same(V, s, t):
  o, n = snapshot(s), snapshot(t)
  return V.And(*[V.exactly(getattr(o, q), getattr(n, q)) for q in vars(o)])


def at(V, s):
  return s.x.m, s.y.m, s.pressure, V.secs(s.time_elapsed)


def features_describe(V, name, f, s, winds):
  want = at(V, s)
  V.prove(name + ' describe the balloon as it is now', V.And(*[
      V.eq(f[i], want[i]) for i in range(4)]))
  u, v = winds.at(*want)
  V.prove(name + ' hold the true wind where the balloon is now',
          V.And(V.eq(f[4], u), V.eq(f[5], v)))


def arena_with(V, rec, seed=5):
  w = Winds(V)
  return balloon_arena.BalloonArena(Constructor, w, seed=seed), w


@unit(con_max=120)
def step(V):
  """Wind sampled before the move, one agent step, then one observation."""
  rec = world(V)
  a, w = arena_with(V, rec)
  s = arbitrary_state(V)
  a.set_balloon_state(s)
  history = V.choice('steps', [1, 2])
  for n in range(history):
    action = V.choice('action', COMMANDS)
    before = at(V, s)
    mine = Constructor.made[-1]
    seen, moves = len(mine.seen), len(rec.moves)
    f = a.step(action)
    V.prove('one simulated step', len(rec.moves) == moves + 1)
    m = rec.moves[-1]
    s = a.get_balloon_state()
    u, v = w.at(*before)
    V.prove('the true wind where the balloon was', V.And(
        V.eq(m['wind'].u.mps, u), V.eq(m['wind'].v.mps, v)))
    V.prove('the requested command', m['action'] == action)
    V.prove('exactly one agent time step', V.eq(V.secs(m['time']), STEP_S))
    V.prove('sub-steps fit', V.secs(m['time']) % V.secs(m['stride']) == 0)
    V.prove('the balloon of the arena in its atmosphere',
            m['state'] is s and m['atmosphere'] is a.get_simulator_state(
            ).atmosphere)
    V.prove('observed after the move, once', m['seen'] == seen and
            len(mine.seen) == seen + 1 and Constructor.made[-1] is mine)
    features_describe(V, 'the features', f, s, w)
    V.prove('the clock advanced by one step',
            V.eq(V.secs(s.time_elapsed), before[3] + STEP_S))


@unit(con_max=20)
def all_around(V):
  """Quarters of the uniform draw are quarters of the way around."""
  rec = world(V)
  a, w = arena_with(V, rec)
  seed = V.choice('seed', [1, 12345])
  at = []
  for u in (0., .25, .5, .75):
    rec.keys.fixed['uniform'] = u
    a.reset(seed)
    s = a.get_balloon_state()
    at.append((s.x.m, s.y.m))
  (x, y), quarter, half, three = at
  for name, p, q in (('half', half, (-x, -y)), ('three', three, tuple(
      -c for c in quarter))):
    V.prove('opposite', V.And(V.near(p[0], q[0], .1), V.near(p[1], q[1], .1)))
  V.prove('across', V.near(quarter[0]**2 + quarter[1]**2, x**2 + y**2, 1.))
  V.prove('a quarter', V.near(x * quarter[0] + y * quarter[1], 0, 1.))


@per_case({'int': 'int', 'array': 'array', 'none': 'none'}, trig=True,
          con_max=60)
def reset(V, how):
  """A new episode from an arbitrary earlier one."""
  rec = world(V)
  a, w = arena_with(V, rec)
  s = arbitrary_state(V)
  a.set_balloon_state(s)
  if V.choice('flown before', [False, True]):
    a.step(CMD.UP)
  old = Constructor.made[-1]
  seen = len(old.seen)
  rec.keys.log.clear()
  rec.atmosphere_resets.clear()
  rec.stable.clear()
  w.resets.clear()
  number = V.choice('seed', [0, 5, 12345])
  if how == 'int':
    f = a.reset(number)
    V.prove('seeded with the number', rec.keys.seed == number)
  elif how == 'array':
    f = a.reset(np.array([number, 7]))
  else:
    V.patch(time_module, 'time', lambda: 1600000000.25)
    f = a.reset()
    V.prove('seeded with the time', rec.keys.seed > 10**6)
  keys = [k for _, k in rec.keys.log] + [tuple(int(i) for i in k) for k in (
      rec.time_key, *[q[1] for q in rec.atmosphere_resets],
      *[q[0] for q in w.resets])]
  root = {'int': (number,), 'array': (number, 7)}.get(how)
  if root:
    V.prove('everything derives from the seed', all(
        k[:len(root)] == root for k in keys))
  V.prove('each quantity has a key of its own', len(set(keys)) == len(keys))
  s = a.get_balloon_state()
  V.prove('drawn once each', sorted(k for k, _ in rec.keys.log) == [
      'beta', 'infrared', 'location', 'pressure', 'uniform'])
  V.prove('within 200 km', V.le(s.x.m**2 + s.y.m**2, 200000.0**2))
  b = draw_of(V, rec, 'beta')
  V.prove('as far as drawn', V.eq(s.x.m**2 + s.y.m**2, (200000.0 * b)**2))
  V.prove('at the sampled place', s.center_latlng is rec.location)
  V.prove('at the sampled pressure and infrared', V.And(
      V.eq(s.pressure, draw_of(V, rec, 'pressure')),
      V.eq(s.upwelling_infrared, draw_of(V, rec, 'infrared'))))
  V.prove('flying', s.status == OK)
  V.prove('the episode begins', V.eq(V.secs(s.time_elapsed), 0))
  V.prove('one new atmosphere, sampled before it is used',
          len(rec.atmosphere_resets) == 1 and rec.pressure_resets == 1 and
          rec.atmosphere_resets[0][0] is rec.pressure_atmosphere is
          a.get_simulator_state().atmosphere)
  V.prove('made stable in it', len(rec.stable) == 1 and
          rec.stable[0] == (s, rec.pressure_atmosphere, 1) and
          s.mols_air == 123.0)
  V.prove('one new wind, from the start time', len(w.resets) == 1 and
          V.truth(w.resets[0][1] == s.date_time))
  c = Constructor.made[-1]
  V.prove('new estimator on the new wind', c is not old and
          c.forecast is w and c.resets_before == 1 and
          c.atmosphere is rec.pressure_atmosphere and
          len(old.seen) == seen and len(c.seen) == 1)
  features_describe(V, 'the first features', f, s, w)


def draw_of(V, rec, kind):
  key = [k for n, k in rec.keys.log if n == kind][-1]
  return V.fun(kind, float(rec.keys.ids[key]), lo={'pressure': 2000,
               'infrared': 100}.get(kind, 0), hi={'pressure': 20000,
               'infrared': 350}.get(kind, 1))


@unit(con_max=40)
def same_seed(V):
  """Two arenas, whatever flew in them before, start alike from one seed."""
  rec = world(V)
  a, w = arena_with(V, rec, 5)
  b, _ = arena_with(V, rec, V.choice('other', [5, 6]))
  b.step(CMD.DOWN)
  if V.choice('again', [False, True]):
    b.reset(11)
  f, g = a.reset(3), b.reset(3)
  s, t = a.get_balloon_state(), b.get_balloon_state()
  V.prove('same start', V.And(
      V.eq(s.x.m, t.x.m), V.eq(s.y.m, t.y.m), V.eq(s.pressure, t.pressure),
      s.date_time == t.date_time, V.eq(s.upwelling_infrared,
                                       t.upwelling_infrared)))
  V.prove('same features', V.And(*[V.eq(f[i], g[i]) for i in range(6)]))
  V.prove('independent balloons', s is not t)
  del w


@unit(con_max=40)
def constructed_ready(V):
  """A new arena can be stepped at once; its first seed is the given one."""
  rec = world(V)
  number = V.choice('seed', [0, 1, 99])
  a, w = arena_with(V, rec, number)
  V.prove('reset with its seed', rec.keys.seed == number and
          len(w.resets) == 1 and len(Constructor.made) == 1)
  s = a.get_balloon_state()
  V.prove('flying', s.status == OK)
  features_describe(V, 'features', a.step(CMD.UP), s, w)


@unit(con_max=80)
def state_access(V):
  """The state set is the state read, and the one the next step starts from."""
  rec = world(V)
  a, w = arena_with(V, rec)
  s = arbitrary_state(V)
  whole = V.choice('whole simulator', [False, True])
  w2 = Winds(V, 'other')
  atm = standard_atmosphere.Atmosphere(None)
  if whole:
    a.set_simulator_state(simulator_data.SimulatorState(s, w2, atm))
    w = w2
  else:
    a.set_balloon_state(s)
    atm = a.get_simulator_state().atmosphere
  got = a.get_simulator_state()
  V.prove('read back', V.And(
      same(V, a.get_balloon_state(), s), same(V, got.balloon_state, s),
      got.wind_field is w and got.atmosphere is atm))
  o = a.get_measurements()
  u, v = w.at(*at(V, s))
  V.prove('measured as it is', V.And(
      same(V, o.balloon_observation, s), V.eq(o.wind_at_balloon.u.mps, u),
      V.eq(o.wind_at_balloon.v.mps, v)))
  V.prove('reading changes nothing', not rec.moves)
  before = snapshot(s)
  a.step(CMD.DOWN)
  m = rec.moves[-1]
  V.prove('stepped from it', V.And(m['atmosphere'] is atm, *[
      V.exactly(getattr(before, q), getattr(m['before'], q))
      for q in vars(before)]))
  V.prove('in its wind', V.And(V.eq(m['wind'].u.mps, u),
                               V.eq(m['wind'].v.mps, v)))


@bounded_unit('real arenas on sampled seeds', con_n=6, con_budget=120)
def real_arena(V):
  """The real arena: starts, repeats itself, and continues from a copy."""
  import copy
  from balloon_learning_environment.env import features
  seed = V.int('seed', 0, 2**31)

  def make(n):
    return balloon_arena.BalloonArena(
        features.PerciatelliFeatureConstructor,
        wind_field.SimpleStaticWindField(), seed=n)
  a, b = make(1), make(2)
  f, g = a.reset(int(seed)), b.reset(int(seed))
  V.prove('same first features', np.array_equal(f, g))
  s = a.get_balloon_state()
  V.prove('starts within 200 km, flying', s.x.km**2 + s.y.km**2 <= 200.01**2
          and s.status == OK and s.time_elapsed == dt.timedelta())
  cmd = V.choice('command', COMMANDS)
  saved = copy.deepcopy(a.get_simulator_state())
  f, g = a.step(cmd), b.step(cmd)
  V.prove('same next features', np.array_equal(f, g))
  V.prove('three minutes on', a.get_balloon_state().time_elapsed ==
          dt.timedelta(minutes=3))
  x = a.get_balloon_state().x.m, a.get_balloon_state().pressure
  a.set_simulator_state(saved)
  a.step(cmd)
  V.prove('continues from the copy alike', x == (
      a.get_balloon_state().x.m, a.get_balloon_state().pressure))


@bounded_unit('flights of 500 to 1500 steps', con_n=4, con_budget=60)
def long_flights(V):
  """Late steps are like the first ones: between two moves nobody touches
  the balloon, and each step is observed once by the same constructor."""
  rec = world(V)
  a, w = arena_with(V, rec)
  rng = np.random.RandomState(int(V.int('winds', 0, 2**31 - 1)))
  n = int(V.int('steps', 500, 1500))
  left = []
  trace = []

  def look(s):
    layer = s.power_safety_layer
    return (s.x.m, s.y.m, s.pressure, s.time_elapsed, s.last_command,
            s.battery_charge.watt_hours, s.status,
            layer.navigation_is_paused)

  def simulate(self, wind_vector, atmosphere, action, time_delta, stride=(
      dt.timedelta(seconds=10))):
    s = self.state
    if left:
      V.prove('the balloon is as the last step left it', look(s) == left[0])
    u, v = w.at(s.x.m, s.y.m, s.pressure, V.secs(s.time_elapsed))
    V.prove('the true wind where it is', wind_vector.u.mps == u and
            wind_vector.v.mps == v)
    V.prove('one agent step', time_delta == dt.timedelta(minutes=3))
    s.x, s.y = [units.Distance(m=rng.uniform(-1e6, 1e6)) for _ in 'xy']
    s.pressure = rng.uniform(5e3, 14e3)
    s.last_command = action
    s.time_elapsed = s.time_elapsed + time_delta
    s.battery_charge = s.battery_capacity * rng.rand()
    s.power_safety_layer.navigation_is_paused = bool(rng.randint(2))
    left[:] = [look(s)]
    trace.append(action)
  V.patch(balloon.Balloon, 'simulate_step', simulate)
  first = a.get_balloon_state().time_elapsed
  mine = Constructor.made[-1]
  seen = len(mine.seen)
  for i in range(n):
    cmd = COMMANDS[rng.randint(3)]
    a.step(cmd)
    s = a.get_balloon_state()
    V.prove('moved once, as asked, and left alone since',
            len(trace) == i + 1 and trace[-1] == cmd and look(s) == left[0])
    V.prove('observed once', len(mine.seen) == seen + i + 1 and
            mine.seen[-1].balloon_observation is s)
  V.prove('on the clock', s.time_elapsed == first + n * dt.timedelta(
      minutes=3))
  V.prove('one constructor', Constructor.made[-1] is mine)

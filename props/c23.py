"""C23 the wind column of the observation."""
from props.obs import *
from pyver.spec import unit, per_case, bounded_unit

REACH = [(0, 180), (0, 0), (180, 180), (40, 120), (0, 90), (91, 180), (57, 57)]


def column(V, fc, estimator, s, level, lo, hi):
  """The expected column (list of 361 triples of feature, exact or not)."""
  del fc
  x, y = s.x.m, s.y.m
  d = V.math('sqrt', x * x + y * y)
  out = [(0, 1, 1)] * 361
  for k in range(lo, hi + 1):
    u, v, c = estimator.answer(k)
    m = V.math('sqrt', u * u + v * v)
    out[180 - level + k] = (c, (u, v, m, d), m / (m + 30))
  return out


class Winds:
  """Stand-in for the wind estimator (C21): any answer at one level, calm
  (with an uncertainty of its own) at the others."""
  made = None

  def __init__(self, forecast):
    Winds.made = self
    self.asked = []

  def observe(self, *a, **k):
    pass

  def reset(self, forecast):
    pass

  def answer(self, k):
    if k == self.at:
      return self.uvc
    return (0, 0, (k % 11) / 11)

  def query_batch(self, q):
    self.asked.append(q)
    n = len(q)
    means = np.empty((n, 2), dtype=object)
    dev = np.empty(n, dtype=object)
    for k in range(n):
      u, v, c = self.answer(k)
      means[k] = u, v
      dev[k] = c
    if self.V.concrete_mode:
      means, dev = means.astype(float), dev.astype(float)
    return means, dev


def setting(V, level, reach, at, fixed=False):
  """A balloon whose nearest level is `level`, anywhere; reachable levels are
  reach[0]..reach[1]; the wind at level `at` is arbitrary."""
  s = arbitrary_state(V)
  if fixed:
    s.x, s.y = units.Distance(m=3000.0), units.Distance(m=-4000.0)
  s.pressure = pressure_in(V, level)
  V.patch(solar, 'solar_calculator', lambda pos, t: (30.0, 180.0, 1366.0))
  V.patch(solar, 'solar_power', lambda e, p: units.Power(watts=100.0))
  V.patch(power_table, 'lookup', lambda ratio, soc: 200)
  V.patch(solar, 'get_next_sunrise_sunset', lambda pos, t: (
      t + dt.timedelta(hours=3), t + dt.timedelta(hours=14)))
  V.patch(balloon.BalloonState, 'navigation_is_paused',
          property(lambda self: False))
  # the range ends between two levels (anywhere: see `reachable_levels`)
  lo, hi = reach
  pmin, pmax = LO + (lo - .25) * DELTA, LO + (hi + .25) * DELTA
  if fixed:
    pmin = V.real('reach_min', LO + (lo - 1) * DELTA, LO + lo * DELTA)
    pmax = V.real('reach_max', LO + hi * DELTA, LO + (hi + 1) * DELTA)
    # a level exactly at the end of the range is within it
    V.assume(V.And(pmin > LO + (lo - 1) * DELTA, pmax < LO + (hi + 1) * DELTA))
  fc = constructor(V, Winds, (pmin, pmax))
  w = Winds.made
  w.V, w.at = V, at
  w.uvc = (V.real('u', -100, 100), V.real('v', -100, 100), V.real('c', 0, 1))
  return s, fc, w


CASES = {f'level{b}_at{at}_reach{r[0]}to{r[1]}': (b, r, at) for b, r, at in [
    (0, (0, 180), 0), (180, (0, 180), 180), (90, (40, 120), 40),
    (57, (0, 90), 57), (121, (91, 180), 180), (0, (57, 57), 57),
    (179, (40, 120), 120), (1, (40, 120), 77), ('below', (0, 90), 13),
    ('above', (91, 180), 150), (88, (0, 0), 0), (133, (180, 180), 180)]}


@per_case(CASES, con_max=40)
def wind_column(V, case):
  """Centred on the balloon, level by level; unreachable levels marked."""
  level, reach, at = case
  s, fc, w = setting(V, level, reach, at)
  level = {'below': 0, 'above': 180}.get(level, level)
  x, y = s.x.m, s.y.m
  d2 = x * x + y * y
  # away from the station, and some wind (see `calm` and `at_the_station`)
  V.assume(V.And(d2 > 1, w.uvc[0]**2 + w.uvc[1]**2 > .01))
  wind = wind_field.WindVector(units.Velocity(mps=1.0), units.Velocity(mps=0.0))
  fc.observe(simulator_data.SimulatorObservation(s, wind))
  f = fc.get_features()
  V.prove('length', len(f) == 1099)
  V.prove('one query', len(w.asked) == 1 and w.asked[0].shape == (181, 4))
  q = w.asked[0]
  for k in (0, 1, 90, 179, 180):
    V.prove('queried above the balloon at every level, now', V.And(
        V.eq(q[k, 0], x), V.eq(q[k, 1], y), V.eq(q[k, 2], LO + k * DELTA),
        V.eq(q[k, 3], V.secs(s.time_elapsed))))
  want = column(V, fc, w, s, level, *reach)
  g = [f[16 + i] for i in range(1083)]
  for i, (c, b, m) in enumerate(want):
    here = g[3 * i:3 * i + 3]
    if b == 1:
      V.prove('unreachable marker', here[0] == 0 and here[1] == 1 and
              here[2] == 1)
      continue
    mine = i == 180 - level + at
    name = 'arbitrary wind: ' if mine else 'other levels: '
    V.prove(name + 'uncertainty', V.eq(here[0], c))
    V.prove(name + 'magnitude', V.eq(here[2], m))
    V.prove(name + 'inside the observation space', V.And(
        V.le(0, here[1]), V.le(here[1], 1), V.le(0, here[2]),
        V.le(here[2], 1), V.le(0, here[0]), V.le(here[0], 1)))
    u, v, n, d = b
    if not mine:
      V.prove('calm: bearing', V.eq(here[1], 1))
      continue
    if V.concrete_mode:
      cos = min(max(-(u * x + v * y) / (n * d), -1), 1)
      V.prove(name + 'bearing is the angle to the station',
              abs(here[1] - math.acos(cos) / math.pi) < 3e-3)
    else:
      tol = V.const(1e-5)
      cos = (u / (n + tol)) * (-x / (d + tol)) + (v / (n + tol)) * (
          -y / (d + tol))
      V.prove(name + 'bearing is the angle to the station', V.eq(
          here[1] * math.pi, V.math('acos', V.min(V.max(cos, -1), 1))))


@per_case({'level40_0to180': (40, (0, 180)), 'level91_17to17': (91, (17, 17)),
           'level0_90to150': (0, (90, 150)), 'level180_1to179':
           (180, (1, 179))}, con_max=60)
def reachable_levels(V, case):
  """A level is marked unreachable exactly when it is outside the range."""
  level, (lo, hi) = case
  s, fc, w = setting(V, level, (lo, hi), None, fixed=True)
  wind = wind_field.WindVector(units.Velocity(mps=1.0), units.Velocity(mps=0.0))
  fc.observe(simulator_data.SimulatorObservation(s, wind))
  f = fc.get_features()
  for i in range(361):
    k = i - 180 + level
    here = f[16 + 3 * i:19 + 3 * i]
    if lo <= k <= hi:
      V.prove('reachable: the wind there', V.And(
          V.eq(here[0], w.answer(k)[2]), V.eq(here[1], 1), V.eq(here[2], 0)))
    else:
      V.prove('unreachable marker', V.And(
          V.eq(here[0], 0), V.eq(here[1], 1), V.eq(here[2], 1)))


@per_case({'calm': 'calm', 'at the station': 'station', 'both': 'both'},
          con_max=60)
def special(V, case):
  """No wind counts as the worst bearing; at the station every bearing is
  right; everything stays inside the observation space."""
  s, fc, w = setting(V, 60, (20, 150), 100)
  if case != 'calm':
    s.x = units.Distance(m=V.real('near_x', -.6e-5, .6e-5))
    s.y = units.Distance(m=V.real('near_y', -.6e-5, .6e-5))
  else:
    V.assume(s.x.m**2 + s.y.m**2 > 1)
  if case != 'station':
    w.uvc = (V.real('calm_u', -.6e-5, .6e-5), V.real('calm_v', -.6e-5, .6e-5),
             w.uvc[2])
  else:
    V.assume(w.uvc[0]**2 + w.uvc[1]**2 > .01)
  wind = wind_field.WindVector(units.Velocity(mps=1.0), units.Velocity(mps=0.0))
  fc.observe(simulator_data.SimulatorObservation(s, wind))
  f = fc.get_features()
  here = [f[16 + 3 * (180 - 60 + 100) + j] for j in range(3)]
  V.prove('uncertainty', V.eq(here[0], w.uvc[2]))
  V.prove('bearing', V.eq(here[1], 1 if case == 'calm' else 0))
  for i in range(16, 1099):
    V.prove('inside the observation space', V.And(
        V.le(0, f[i]), V.le(f[i], 1)))


CHANGES = {n: n for n in ('reach', 'place', 'pressure', 'wind', 'time',
                         'nothing')}


@per_case(CHANGES, con_max=30)
def seen_before(V, what):
  """The column is that of the last observation: what was observed and asked
  before, however similar, leaves no trace."""
  s, fc, w = setting(V, 60, (20, 150), 100, fixed=True)
  w.uvc = 5.0, -3.5, V.real('unsure', 0, 1)
  see = lambda fc: fc.observe(simulator_data.SimulatorObservation(
      s, wind_field.WindVector(units.Velocity(mps=1.0),
                               units.Velocity(mps=0.0))))
  see(fc)
  fc.get_features()
  if what == 'reach':
    s.mols_air = s.mols_air + 9
    V.patch(pressure_range_builder, 'get_pressure_range', lambda b, atm:
            pressure_range_builder.AccessiblePressureRange(
                LO + 57.75 * DELTA, LO + 101.25 * DELTA))
  elif what == 'place':
    s.x, s.y = s.y, units.Distance(m=-s.x.m)
  elif what == 'pressure':
    s.pressure = s.pressure + 9 * DELTA
  elif what == 'wind':
    w.uvc = (-w.uvc[1], w.uvc[0], 1 - w.uvc[2])
  elif what == 'time':
    s.time_elapsed = s.time_elapsed + dt.timedelta(minutes=3)
  if what != 'nothing':
    see(fc)
  f = fc.get_features()
  fresh = features.PerciatelliFeatureConstructor(None, real_atmosphere())
  Winds.made.V, Winds.made.at, Winds.made.uvc = V, w.at, w.uvc
  see(fresh)
  g = fresh.get_features()
  V.prove('queried now', V.eq(w.asked[-1][7, 3], V.secs(s.time_elapsed)))
  for i in range(16, 1099):
    V.prove('as if seen for the first time', V.eq(f[i], g[i]))


@bounded_unit('random winds at all 181 levels, random reach', con_n=60,
              con_budget=60)
def all_levels(V):
  """The whole column, level by level, with a wind of its own at each."""
  level = V.int('level', 0, 180, small=True)
  lo = V.int('lo', 0, 180, small=True)
  hi = V.int('hi', 0, 180, small=True)
  seed = V.int('winds', 0, 2**31)
  V.assume(lo <= hi)
  rng = np.random.RandomState(int(seed))
  winds = np.concatenate([rng.normal(size=(181, 2)) * 20,
                          rng.uniform(size=(181, 1))], axis=1)
  s, fc, w = setting(V, int(level), (int(lo), int(hi)), None)
  V.assume(s.x.m**2 + s.y.m**2 > 1)
  w.answer = lambda k: winds[k]
  wind = wind_field.WindVector(units.Velocity(mps=1.0), units.Velocity(mps=0.0))
  fc.observe(simulator_data.SimulatorObservation(s, wind))
  f = fc.get_features()
  x, y = s.x.m, s.y.m
  for i in range(361):
    k = i - 180 + level
    here = f[16 + 3 * i:19 + 3 * i]
    if not lo <= k <= hi:
      V.prove('unreachable marker', list(here) == [0, 1, 1])
      continue
    u, v, c = winds[k]
    m = math.hypot(u, v)
    cos = min(max(-(u * x + v * y) / (m * math.hypot(x, y)), -1), 1)
    V.prove('uncertainty', abs(here[0] - c) < 1e-6)
    V.prove('magnitude', abs(here[2] - m / (m + 30)) < 1e-5)
    V.prove('bearing', abs(here[1] - math.acos(cos) / math.pi) < 3e-3)

"""C22 ambient observation features."""
import copy

from props.obs import *
from pyver.spec import unit, per_case

WHERE = {'below': 'below', 'above': 'above', 'lowest': 0, 'second': 1,
         'low': 57, 'middle': 90, 'high': 179, 'highest': 180}


@per_case(WHERE, trig=True, con_max=60)
def ambient(V, where):
  """The 16 ambient entries of get_features, for any balloon state."""
  s = arbitrary_state(V)
  s.pressure = pressure_in(V, where)
  s.last_command = V.choice('last_command', COMMANDS)
  el = V.real('elevation', -90, 90)
  rise, sets = V.real('to_sunrise', 1, DAY - 1), V.real('to_sunset', 1, DAY - 1)
  V.assume(V.Or(rise - sets > 60, sets - rise > 60))
  solar_w = V.real('solar_w', 0, 2000)
  paused = V.choice('paused', [False, True])
  V.patch(solar, 'solar_calculator', lambda pos, t: (el, 180.0, 1366.0))
  V.patch(solar, 'solar_power', lambda e, p: units.Power(watts=solar_w))
  sec = dt.timedelta(seconds=1)
  V.patch(solar, 'get_next_sunrise_sunset', lambda pos, t: (
      s.date_time + sec * rise, s.date_time + sec * sets))
  V.patch(power_table, 'lookup', lambda ratio, soc: V.fun(
      'power', ratio, soc, lo=0, hi=325))
  V.patch(balloon.BalloonState, 'navigation_is_paused',
          property(lambda self: paused))
  x, y = s.x.m, s.y.m
  V.assume(V.Or(x > 1, x < -1, y > 1, y < -1))
  fc = constructor(V)
  wind = wind_field.WindVector(units.Velocity(mps=1.0), units.Velocity(mps=0.0))
  fc.observe(simulator_data.SimulatorObservation(s, wind))
  f = fc.get_features()
  V.prove('length', len(f) == 1099)
  soc = s.battery_charge.watt_hours / s.battery_capacity.watt_hours
  clip = lambda v: V.min(V.max(v, 0), 1)
  V.prove('0 pressure', V.eq(f[0], clip((s.pressure - LO) / (HI - LO))))
  V.prove('1 state of charge', V.eq(f[1], soc))
  V.prove('2 sun elevation', V.eq(f[2], (el + 90) / 180))
  day = sets < rise
  phase = V.ite(day, math.pi * (DAY - rise) / (sets - rise + DAY),
                math.pi * (1 + (DAY - sets) / (rise - sets + DAY)))
  V.prove('3 sine of the day phase', V.near(f[3], V.math('sin', phase), 1e-5))
  V.prove('4 cosine of the day phase', V.near(f[4], V.math('cos', phase), 1e-5))
  d = V.math('sqrt', x * x + y * y)
  V.prove('5 sine of the heading to the station', V.eq(f[5] * d, -x))
  V.prove('6 cosine of the heading to the station', V.eq(f[6] * d, -y))
  V.prove('7 distance', V.eq(f[7], d / 1000 / (d / 1000 + 250)))
  for i, c in ((8, CMD.UP), (9, CMD.STAY), (10, CMD.DOWN)):
    V.prove(f'{i} last command', V.eq(f[i], 1 if s.last_command == c else 0))
  V.prove('11 paused', V.eq(f[11], 1 if paused else 0))
  V.prove('12 not paused', V.eq(f[12], 0 if paused else 1))
  V.prove('13 excess energy', V.eq(f[13], V.ite(V.And(
      solar_w > s.daytime_power_load.watts, soc > .99), 1, 0)))
  ratio = (s.pressure + V.max(s.superpressure, 0)) / s.pressure
  V.prove('15 pressure ratio', V.eq(f[15], ratio))
  p = V.fun('power', s.pressure_ratio, s.battery_soc, lo=0, hi=325)
  V.prove('14 descent cost', V.eq(f[14], clip((p - 100) / 200)))
  box = fc.observation_space
  for i in range(16):
    V.prove(f'{i} inside the observation space', V.And(
        V.le(float(box.low[i]) - 1e-6, f[i]),
        V.Or(bool(np.isinf(box.high[i])), V.le(f[i], V.const(
            float(min(box.high[i], 1e30)) + 1e-6)))))


@unit(con_max=30)
def observing(V):
  """Observing feeds the estimator what was measured where; the features are
  of the balloon observed last, be it later, earlier or elsewhere."""
  fc = constructor(V)
  s, n = None, V.choice('observations', [1, 2])
  for i in range(n):
    s = arbitrary_state(V) if s is None else copy.copy(s)
    if i:
      s.x, s.y = units.Distance(m=V.real('x2', -1e6, 1e6)), units.Distance(
          m=V.real('y2', -1e6, 1e6))
      s.pressure = V.real('pressure2', 2000, 20000)
      s.time_elapsed = V.delta('elapsed2', 0, 1e7)
      s.battery_charge = s.battery_capacity * V.real('charge2', 0, 1)
    w = wind_field.WindVector(units.Velocity(mps=V.real(f'u{i}', -50, 50)),
                              units.Velocity(mps=V.real(f'v{i}', -50, 50)))
    fc.observe(simulator_data.SimulatorObservation(s, w))
    V.prove('once each', len(fc.windgp.observed) == i + 1)
    x, y, p, t, m = fc.windgp.observed[i]
    V.prove('what was measured where', V.And(
        V.eq(x.m, s.x.m), V.eq(y.m, s.y.m), V.eq(p, s.pressure),
        V.eq(t, s.time_elapsed), V.eq(m.u.mps, w.u.mps),
        V.eq(m.v.mps, w.v.mps)))


@unit(trig=True, con_max=60)
def the_latest(V):
  """The features are of the balloon observed last, be it later, earlier or
  elsewhere than the one before."""
  fc = constructor(V)
  first = arbitrary_state(V)
  first.pressure = 9000.0
  wind = wind_field.WindVector(units.Velocity(mps=1.0), units.Velocity(mps=0.0))
  V.patch(solar, 'solar_calculator', lambda pos, t: (10.0, 180.0, 1366.0))
  V.patch(solar, 'solar_power', lambda e, p: units.Power(watts=100.0))
  V.patch(solar, 'get_next_sunrise_sunset', lambda pos, t: (
      t + dt.timedelta(hours=3), t + dt.timedelta(hours=14)))
  V.patch(power_table, 'lookup', lambda ratio, soc: 200.0)
  fc.observe(simulator_data.SimulatorObservation(first, wind))
  if V.choice('asked', [False, True]):
    fc.get_features()
  s = copy.copy(first)
  x, y = V.real('x2', 100, 1e6), V.real('y2', 100, 1e6)
  s.x, s.y = units.Distance(m=x), units.Distance(m=y)
  s.pressure = 7777.0
  s.time_elapsed = V.delta('elapsed2', 0, 1e7)
  s.battery_charge = s.battery_capacity * V.real('charge2', 0, 1)
  fc.observe(simulator_data.SimulatorObservation(s, wind))
  f = fc.get_features()
  d = V.math('sqrt', x * x + y * y)
  V.prove('pressure', V.near(f[0], (7777.0 - LO) / (HI - LO), 1e-6))
  V.prove('state of charge', V.eq(f[1], s.battery_charge.watt_hours /
                                  s.battery_capacity.watt_hours))
  V.prove('heading', V.And(V.eq(f[5] * d, -x), V.eq(f[6] * d, -y)))
  V.prove('distance', V.eq(f[7], d / 1000 / (d / 1000 + 250)))


@unit(con_max=60)
def expected_pressures(V):
  """Which pressures the encoding is made for; others are still encoded."""
  p = V.real('p', 1000, 30000, pts=(LO, HI))
  V.prove('within the levels', V.Iff(
      V.truth(constructor(V).is_valid_pressure(p)),
      V.And(p >= LO, p <= HI)))


@unit(con_max=30)
def observation_space(V):
  """Its declared shape and bounds."""
  box = constructor(V).observation_space
  V.prove('1099 entries', box.shape == (1099,))
  signed = [3, 4, 5, 6]
  for i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18,
            500, 1098):
    V.prove('bounds', V.And(
        box.low[i] == (-1 if i in signed else 1 if i == 15 else 0),
        box.high[i] == (np.inf if i == 15 else 1)))
  V.prove('bounds of the wind column', bool(
      (box.low[16:] == 0).all() and (box.high[16:] == 1).all()))


@unit(con_max=60)
def decoding(V):
  """Named features read back what was encoded."""
  f = np.zeros(1099, dtype=float if V.concrete_mode else object)
  for i in range(16):
    f[i] = V.real(f'f{i}', 0, 1)
  cmd = V.choice('command', [0, 1, 2])
  for i in range(3):
    f[8 + i] = 1.0 if i == cmd else 0.0
  f[15] = V.real('ratio', 1, 5)
  level = V.choice('level', [0, 1, 180, 359, 360])
  w = [V.real(f'w{i}', 0, 1) for i in range(3)]
  f[16 + 3 * level:19 + 3 * level] = w
  n = features.NamedPerciatelliFeatures(f)
  V.prove('pressure', V.eq(n.balloon_pressure, LO + f[0] * (HI - LO)))
  for name, i in (('battery_charge', 1), ('solar_elevation', 2),
                  ('sin_normalized_solar_cycle', 3),
                  ('cos_normalized_solar_cycle', 4),
                  ('sin_heading_to_station', 5), ('cos_heading_to_station', 6),
                  ('distance_to_station', 7), ('navigation_paused', 11),
                  ('navigation_enabled', 12), ('has_excess_energy', 13),
                  ('descent_cost', 14), ('internal_pressure_ratio', 15)):
    V.prove(name, V.eq(getattr(n, name), f[i]))
  V.prove('last command', n.last_command == [CMD.UP, CMD.STAY, CMD.DOWN][cmd])
  V.prove('levels', n.num_pressure_levels == 361 and
          n.wind_column_center() == 180)
  g = n.wind_at(level)
  V.prove('wind at a level', V.And(V.eq(g.uncertainty, w[0]),
                                   V.eq(g.bearing, w[1]),
                                   V.eq(g.magnitude, w[2])))
  V.prove('its parts', V.And(V.eq(n.uncertainty(level), w[0]),
                             V.eq(n.bearing(level), w[1]),
                             V.eq(n.magnitude(level), w[2])))
  marker = V.And(V.eq(w[0], 0), V.eq(w[1], 1), V.eq(w[2], 1))
  V.prove('unreachable exactly when marked',
          V.Iff(V.truth(n.level_is_valid(level)), V.Not(marker)))
  other = (level + 7) % 361
  h = n.wind_at(other)
  V.prove('levels do not overlap', V.And(V.eq(h.uncertainty, 0),
                                         V.eq(h.bearing, 0),
                                         V.eq(h.magnitude, 0)))


@unit(con_max=60)
def wrong_levels(V):
  """Levels outside the column are refused."""
  n = features.NamedPerciatelliFeatures(np.zeros(1099))
  k = V.int('level', -1000, 1000, pts=[-1, 361, 362])
  V.assume(V.Or(k < 0, k >= 361))
  for f in (n.wind_at, n.level_is_valid, n.magnitude, n.bearing,
            n.uncertainty):
    V.prove('refused', V.run(lambda: f(k))[0] == 'raise')


@unit(con_max=60)
def real_wind(V):
  """Bearing in radians and speed in m/s come back from the features."""
  a, m, c = V.real('angle', 0, math.pi), V.real('speed', 0, 200), V.real(
      'uncertainty', 0, 1)
  w = features.convert_wind_feature_to_real_wind(
      features.PerciatelliWindFeature(c, a / math.pi, m / (m + 30)))
  V.prove('uncertainty', V.eq(w.uncertainty, c))
  V.prove('angle', V.near(w.bearing, a, 1e-9))
  V.prove('speed', V.near(w.magnitude, m, 1e-6))

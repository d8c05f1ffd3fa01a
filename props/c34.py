"""C34 reachable pressure range."""
import inspect
import types

from balloon_learning_environment.env.balloon import altitude_safety
from balloon_learning_environment.env.balloon import envelope_safety
from balloon_learning_environment.env.balloon import pressure_range_builder
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.env.balloon import standard_atmosphere
from props import flight
from props.common import *
from props.flight import R, M_AIR, M_HE
from pyver.spec import unit, per_case, bounded_unit

STABLE = inspect.signature(stable_init.calculate_stable_params_for_pressure)
BUFFER = 250
SEARCH = ('balloon_learning_environment.env.balloon.pressure_range_builder:'
          '_search_for_safe_pressure')


def world(V):
  """The atmosphere (real, fixed): the sampled pressures and P/T there."""
  atm = real_atmosphere()
  if 'levels' not in CACHE:
    from pyver import runtime
    s, runtime.SESSION = runtime.SESSION, None
    try:
      floor = atm.at_height(altitude_safety.MIN_ALTITUDE).pressure
      CACHE['levels'] = [float(x) for x in np.linspace(1000, floor, 20)]
      CACHE['p_over_t'] = [x / float(atm.at_pressure(x).temperature)
                           for x in CACHE['levels']]
    finally:
      runtime.SESSION = s
  return atm, CACHE['levels'], CACHE['p_over_t']


CACHE = {}


def lightest(V, s):
  """P/T at which the balloon floats without air in its ballonet."""
  return ((s.payload_mass + s.envelope_mass + s.mols_lift_gas * M_HE) * R /
          (M_AIR * s.envelope_volume_base))


def interpolate(ratio, xs, ys, i):
  return ys[i] + (ratio - xs[i]) * (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])


def superpressures(V, s, given, lo=-500, hi=4000, drawn=None):
  """Stable superpressure at a pressure: an arbitrary function."""
  def stable(*a, **k):
    g = STABLE.bind(*a, **k).arguments
    given.append(g)
    p = g['pressure']
    return stable_init.StableParams(206., 206., 0., 1800., curve(p))

  def curve(p):
    for q, x in (drawn or {}).items():
      if abs(p - q) < 1e-6:
        return x
    return V.fun('superpressure', p, lo=lo, hi=hi)
  V.patch(stable_init, 'calculate_stable_params_for_pressure', stable)
  return curve


def of_this_balloon(V, given, s, atm):
  for g in given:
    for n in ('envelope_volume_base', 'envelope_volume_dv_pressure',
              'envelope_mass', 'payload_mass', 'mols_lift_gas',
              'upwelling_infrared'):
      V.prove('stable values of this balloon', V.eq(g[n], getattr(s, n)))
    V.prove('here and now', g['latlng'] == s.latlng and
            g['atmosphere'] is atm)
    V.prove('at this time', V.eq(V.secs(g['date_time'] - s.date_time), 0))


def floats_at(V, s, p_over_t, levels, i=None):
  """Where the empty balloon floats (between the samples i and i + 1, or
  outside of the samples at the ends)."""
  ratio = lightest(V, s)
  if i is None:
    i = 0
    while i < 18 and not V.truth(ratio <= p_over_t[i + 1]):
      i += 1
  else:
    if i:
      V.assume(ratio > p_over_t[i])
    if i < 18:
      V.assume(ratio <= p_over_t[i + 1])
  return interpolate(ratio, p_over_t, levels, i)


@unit(con_max=60, max_paths=2000)
def unrestricted(V):
  """If both ends are safe: from where the empty balloon floats down to the
  altitude floor."""
  atm, levels, p_over_t = world(V)
  s = flight.arbitrary_state(V)
  given = []
  safe = 260, 440           # within the limits of every envelope above 700 Pa
  curve = superpressures(V, s, given, *safe)
  top = floats_at(V, s, p_over_t, levels)
  out = pressure_range_builder.get_pressure_range(s, atm)
  V.prove('up to where it floats without air',
          V.near(out.min_pressure, top, 1e-6))
  V.prove('down to the floor', V.near(out.max_pressure, levels[-1], 1e-6))
  of_this_balloon(V, given, s, atm)


# vehicles that float without air above all samples, between two samples and in
# the last interval
VEHICLES = {'outside': .3, 'high': 4.3, 'middle': 9.7, 'lowest': 18.6}
SIDES = {'top': 0, 'floor': 1}


@per_case({f'{v}_{side}': (x, i) for v, x in VEHICLES.items()
           for side, i in SIDES.items() if i == 0 or v == 'middle'},
          con_max=60, max_paths=3000,
          vc_timeout=30)
def restricted(V, case):
  """Any superpressure curve: the end is the linear crossing of the limit
  between the first safe sample from that side and the unsafe one before, and
  a balloon without safe samples is refused."""
  place, which = case
  atm, levels, p_over_t = world(V)
  s = flight.arbitrary_state(V)
  i = int(place)
  ratio = p_over_t[i] + (place - i) * (p_over_t[i + 1] - p_over_t[i])
  if i == 0:
    ratio *= .8
  s.envelope_volume_base, s.payload_mass, s.mols_lift_gas = 1800., 90., 6800.
  s.envelope_mass = ratio / R * M_AIR * 1800. - 90. - 6800. * M_HE
  top = interpolate(lightest(V, s), p_over_t, levels, i)
  given = []
  drawn = {}
  curve = superpressures(V, s, given, drawn=drawn)
  hi = s.envelope_max_superpressure - BUFFER

  def safe(p):
    return V.And(curve(p) >= BUFFER, curve(p) <= hi)
  items, start, other = ((levels, top, levels[-1]) if which == 0 else
                         (levels[::-1], levels[-1], top))
  reached = [x for x in items if which == 1 or x >= top]
  skipped = len(items) - len(reached)
  # which sample is the first safe one (the last choice: none)
  r = V.choice('first safe', list(range(len(reached) + 1)))
  if V.concrete_mode:
    for k, x in enumerate([start, *reached[:r]]):
      drawn[x] = V.choice(f'unsafe {k}', [-300., 0., 249., hi + 1, 4000.])
    for x in [*reached[r:r + 1], other]:
      drawn[x] = V.choice('safe', [250., hi / 2 + 125, hi])
  for x in reached[:r]:
    V.assume(V.Not(safe(x)))
  for x in reached[r:r + 1]:
    V.assume(safe(x))
  V.assume(V.And(safe(other), V.Not(safe(start))))

  def before(k):
    """The last pressure looked at before position k."""
    return V.ite(k <= skipped, start, V.pick(items, k - 1))

  def inv(V, e):
    k = e['__k']
    if (e['__items'][0] < e['__items'][-1]) != (which == 0):
      return [('not reached', False)]
    q, sq = e.last_pressure_sp
    return [('nothing found yet', k <= skipped + r),
            ('the last unsafe point', V.And(
                V.eq(q, before(k)), V.eq(sq, curve(q)), V.Not(safe(q))))]
  V.loop(SEARCH, 0, inv, cut='split', kinds=dict(
      sp='real', stable_params=lambda s: None))
  kind, out = V.run(lambda: pressure_range_builder.get_pressure_range(s, atm))
  if r == len(reached):
    V.prove('no safe pressure is refused', isinstance(out, ValueError))
    return
  V.prove('found', kind == 'ok')
  ends = [out.min_pressure, out.max_pressure]
  V.prove('the safe end stays', V.near(ends[1 - which], other, 1e-6))
  l, q = reached[r], ([start] + reached)[r]
  limit = V.ite(curve(q) > hi, hi, BUFFER)
  part = (limit - curve(q)) / (curve(l) - curve(q))
  V.prove('the crossing', V.near(ends[which], q + part * (l - q), 1e-6))
  V.prove('between the two', V.And(0 <= part, part <= 1))
  of_this_balloon(V, given, s, atm)


@bounded_unit('sampled balloons, places and times', con_n=60, con_budget=60)
def real_balloons(V):
  """The default vehicle anywhere: an ordered range above the floor."""
  from balloon_learning_environment.env.balloon import balloon
  import s2sphere as s2
  s = balloon.BalloonState(
      center_latlng=s2.LatLng.from_degrees(float(V.real('lat', -10, 10)),
                                           float(V.real('lng', -180, 180))),
      date_time=dt.datetime(2011, 1, 1, tzinfo=UTC) + dt.timedelta(
          seconds=float(V.real('clock_s', 0, 1.2e8))),
      upwelling_infrared=float(V.real('infrared', 100, 350)))
  atm, levels, p_over_t = world(V)
  def superpressure(p):
    return stable_init.calculate_stable_params_for_pressure(
        p, s.envelope_volume_base, s.envelope_volume_dv_pressure,
        s.envelope_mass, s.payload_mass, s.mols_lift_gas, s.latlng,
        s.date_time, s.upwelling_infrared, atm).superpressure
  top = floats_at(V, s, p_over_t, levels)
  hi = s.envelope_max_superpressure - BUFFER
  # the same balloon at another time, under another sky
  now, infrared = s.date_time, s.upwelling_infrared
  if V.choice('asked before', [True, False]):
    s.date_time += dt.timedelta(hours=float(V.real('hours', -24, 24)))
    s.upwelling_infrared = float(V.real('infrared', 100, 350))
    V.run(pressure_range_builder.get_pressure_range, s, atm)
    s.date_time, s.upwelling_infrared = now, infrared
  kind, out = V.run(lambda: pressure_range_builder.get_pressure_range(s, atm))
  if not any(p >= top and BUFFER <= superpressure(p) <= hi for p in levels):
    V.prove('refused', isinstance(out, ValueError))
    return
  import jax
  sky = standard_atmosphere.Atmosphere(jax.random.PRNGKey(
      int(V.int('sky', 1, 999))))
  V.run(pressure_range_builder.get_pressure_range, s, sky)
  sky.reset(jax.random.PRNGKey(0))
  again = pressure_range_builder.get_pressure_range(s, sky)
  V.prove('in the atmosphere as it is now', abs(
      again.min_pressure - out.min_pressure) < 1e-6 and abs(
          again.max_pressure - out.max_pressure) < 1e-6)
  V.prove('ordered', out.min_pressure < out.max_pressure)
  V.prove('above the floor', out.max_pressure <= levels[-1] + 1e-6)
  V.prove('plain numbers', type(out.min_pressure) is float and
          type(out.max_pressure) is float)
  V.prove('not higher than it floats', out.min_pressure >= top - 1e-6)
  for p in (out.min_pressure, out.max_pressure):
    V.prove('safe at both ends', envelope_safety.CRITICAL_BUFFER <
            superpressure(p) < s.envelope_max_superpressure -
            envelope_safety.CRITICAL_BUFFER)

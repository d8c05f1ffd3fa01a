"""C13 sunrise, sunset, noon and midnight searches."""
import math

from balloon_learning_environment.env.balloon import solar
from props.common import *
from pyver.spec import unit, per_case, bounded_unit
import s2sphere as s2

T0 = dt.datetime(2021, 3, 4, 5, 6, 7, tzinfo=UTC)
PLACE = s2.LatLng.from_degrees(3.0, 70.0)
SEARCH = ('balloon_learning_environment.env.balloon.solar:'
          '_find_solar_elevation_binary_search')
CUTOFF = -4.242
H12, DAY = 43200, 86400


def at(V, s):
  return T0 + V.const_delta(s)


def since(V, t):
  return V.secs(t - T0)


class Curve:
  """An unknown function of a signed distance: zero at zero, growing to both
  sides (not necessarily symmetric)."""

  def __init__(self, V, scale):
    self.V, self.seen, self.scale = V, [], scale
    if V.concrete_mode:
      self.shape = [(V.real('scale', 1, 80), V.choice('shape', [.5, 1, 2]))
                    for _ in range(2)]

  def __call__(self, d):
    V = self.V
    if V.concrete_mode:
      a, p = self.shape[d >= 0]
      return a * (abs(d) / self.scale)**p
    g = V.uf('g', d)
    V.axiom(V.And(g >= 0, V.Iff(d == 0, g == 0)))
    for d2, g2 in self.seen:
      V.axiom(V.Implies(V.And(d >= 0, d2 >= 0), V.And(
          V.Iff(d < d2, g < g2), V.Iff(d == d2, g == g2))))
      V.axiom(V.Implies(V.And(d <= 0, d2 <= 0), V.And(
          V.Iff(d < d2, g > g2), V.Iff(d == d2, g == g2))))
    self.seen.append((d, g))
    return g


@per_case(dict(noon='maximum', midnight='minimum', rise=CUTOFF, fall=CUTOFF,
               level=10), con_max=120)
def search(V, target, case=None):
  """Any interval, any number of steps: the optimum is found to one step."""
  step = V.choice('step', [180, 60, 7])
  n = V.int('steps', 1, None, small=400)
  width = n * step + V.real('rest', 0, .99) * step
  start = V.real('start', -1e6, 1e6)
  event = V.real('event', 0, 1) * width if V.concrete_mode else V.real('event')
  V.assume(V.And(event >= 0, event <= width))
  sign = V.choice('direction', [1, -1])
  g = Curve(V, H12)

  def elevation(t):
    d = since(V, t) - start - event
    if target == 'minimum':
      return -30 + g(d)
    if target == 'maximum':
      return 70 - g(d)
    return V.ite(d >= 0, target + sign * g(d), target - sign * g(d))

  V.patch(solar, 'solar_calculator',
          lambda place, t: (elevation(t), 0.0, 1366.0))

  def inv(V, e):
    k = event / step
    return [('ordered', V.And(e.low >= 0, e.low <= e.high, e.high <= n)),
            ('event stays inside', V.And(e.low - 1 <= k, V.Or(
                k <= e.high + 1, e.high == n)))]
  V.loop(SEARCH, 0, inv, variant=lambda V, e: e.high - e.low)
  t, el = solar._find_solar_elevation(
      PLACE, at(V, start), at(V, start + width), target,
      dt.timedelta(seconds=step))
  off = since(V, t) - start
  V.prove('inside the interval', V.And(V.le(0, off, 1e-5), V.le(off, width, 1e-5)))
  V.prove('within one step of the event', V.And(
      V.le(off - event, step, 1e-5), V.le(event - off, step, 1e-5)))
  V.prove('reports the elevation then', V.eq(el, elevation(t)))


@unit()
def search_refusals(V):
  """Reversed and too short intervals and unknown targets are refused."""
  w = V.real('width', -1e5, 179)
  kind, x = V.run(solar._find_solar_elevation, PLACE, T0, at(V, w),
                  V.choice('target', ['minimum', 'maximum', 5.0]),
                  dt.timedelta(seconds=180))
  V.prove('refused', kind == 'raise' and isinstance(
      x, (ValueError, AssertionError)))
  kind, x = V.run(solar._find_solar_elevation, PLACE, T0, at(V, 86400),
                  'noonish')
  V.prove('unknown target', kind == 'raise' and isinstance(x, ValueError))


def ideal(V):
  """A sun with noons every 24 h, symmetric about noon and midnight, and the
  verified contract of the search in place of its body."""
  now = V.real('now', -1e6, 1e6)
  to_midnight = V.real('to_midnight', 2, DAY - 2, pts=[H12])
  V.assume(V.Or(to_midnight > H12 + 2, to_midnight < H12 - 2))
  half_day = V.real('half_day', 7200, H12 - 7200)
  step = V.choice('step', [180, 60, 600])
  g = Curve(V, H12)

  def elevation(t):
    # distance to the nearest midnight
    d = since(V, t) - now - to_midnight
    best = abs(d)
    for k in (-2, -1, 1, 2):
      best = V.min(best, abs(d - k * DAY))
    return -30 + g(best)

  V.patch(solar, 'solar_calculator',
          lambda place, t: (elevation(t), 0.0, 1366.0))
  rec = types_ns()
  rec.now, rec.step, rec.calls = now, step, []
  rec.midnight = now + to_midnight
  rec.noon = V.ite(to_midnight > H12, rec.midnight - H12, rec.midnight + H12)
  rec.half = half_day
  # all events of a kind: base + k * DAY
  rec.base = dict(minimum=rec.midnight, maximum=rec.noon,
                  rise=rec.noon - half_day, fall=rec.noon + half_day)

  def find(place, lo, hi, target, time_delta=dt.timedelta(minutes=3)):
    a, b = since(V, lo), since(V, hi)
    V.prove('a search interval is long enough', b - a >= step)
    V.prove('searched with the given resolution', V.eq(
        V.secs(time_delta), step))
    kinds = [target] if isinstance(target, str) else ['rise', 'fall']
    if not isinstance(target, str):
      V.prove('searches the cut-off elevation', V.eq(target, V.const(CUTOFF)))
    cand = [rec.base[x] + k * DAY for x in kinds for k in (-2, -1, 0, 1, 2)]
    inside = [V.And(c >= a, c <= b) for c in cand]
    V.prove('the searched interval contains the event', V.Or(*inside))
    err = V.real('err', -1, 1) * step
    for c, i in zip(cand, inside):
      if V.truth(i):
        t = V.min(V.max(c + err, a), b)
        rec.calls.append((target, c, a, b))
        return at(V, t), elevation(at(V, t))
    raise AssertionError('no event inside the interval')
  V.patch(solar, '_find_solar_elevation', find)
  return rec


def types_ns():
  import types
  return types.SimpleNamespace()


@unit(max_paths=2000)
def noon_and_midnight(V):
  """The next noon and midnight lie in the coming day, to one step."""
  rec = ideal(V)
  step = dt.timedelta(seconds=rec.step)
  now = at(V, rec.now)
  V.prove('afternoon is when midnight comes before noon', V.Iff(
      solar.is_solar_afternoon(PLACE, now), rec.midnight < rec.noon))
  t, el = solar.get_next_solar_midnight(PLACE, now, step)
  s = since(V, t)
  V.prove('midnight to one step', V.And(V.le(s - rec.midnight, rec.step),
                                        V.le(rec.midnight - s, rec.step)))
  V.prove('midnight is ahead, within a day', V.And(
      V.le(rec.now, s), V.le(s, rec.now + DAY)))
  t, el = solar.get_next_solar_noon(PLACE, now, step)
  s = since(V, t)
  V.prove('noon to one step', V.And(V.le(s - rec.noon, rec.step),
                                    V.le(rec.noon - s, rec.step)))
  V.prove('noon is ahead, within a day', V.And(
      V.le(rec.now, s), V.le(s, rec.now + DAY)))


@unit(max_paths=20000, vc_timeout=20000)
def sunrise_and_sunset(V):
  """Both lie ahead, within a day, at true crossings (to one step)."""
  rec = ideal(V)
  rise, fall = solar.get_next_sunrise_sunset(
      PLACE, at(V, rec.now), dt.timedelta(seconds=rec.step))
  for name, t, base in (('sunrise', rise, rec.base['rise']),
                        ('sunset', fall, rec.base['fall'])):
    s = since(V, t)
    V.prove(f'{name} is not in the past', V.le(rec.now, s))
    V.prove(f'{name} is within a day', V.le(s, rec.now + DAY + rec.step))
    V.prove(f'{name} is a true crossing in the right direction', V.Or(*[
        V.And(V.le(s - base - k * DAY, rec.step),
              V.le(base + k * DAY - s, rec.step)) for k in (-1, 0, 1, 2)]))


@unit()
def high_latitudes(V):
  """Polar days and nights are refused."""
  lat = V.real('lat', -90, 90, pts=[60, -60])
  V.assume(V.Or(lat >= 60.001, lat <= -60.001))
  pos = s2.LatLng.from_degrees(lat, 12.0)
  V.patch(solar, 'solar_calculator', lambda *a: (0.0, 0.0, 0.0))
  kind, x = V.run(solar.get_next_sunrise_sunset, pos, T0)
  V.prove('refused', kind == 'raise' and isinstance(x, AssertionError))


@unit()
def steps_to_sunrise(V):
  """0 in the day, otherwise the whole steps that cover the wait."""
  el = V.real('el', -90, 90, pts=[CUTOFF])
  wait = V.real('wait', 0, DAY + 180)
  step = V.choice('step', [180, 60, 600])
  V.patch(solar, 'solar_calculator', lambda p, t: (el, 0.0, 0.0))
  V.patch(solar, 'get_next_sunrise_sunset', lambda p, t, d=None: (
      t + V.const_delta(wait), t + V.const_delta(wait + H12)))
  n = solar.calculate_steps_to_sunrise(PLACE, T0, dt.timedelta(seconds=step))
  V.prove('day', V.Implies(el >= CUTOFF, V.eq(n, 0)))
  V.prove('enough steps', V.Implies(el < CUTOFF, V.le(wait, n * step)))
  V.prove('not one too many', V.Implies(el < CUTOFF, (n - 1) * step < wait
                                        + 1e-6))
  V.prove('never negative', n >= 0)


@bounded_unit('sampled: positions within 59 degrees of the equator, times '
              '1970-2090', con_n=1500, con_budget=60)
def real_sun(V):
  """On the real sun: the elevation crosses the cut-off in the right
  direction around each event, and noon/midnight are the extremes."""
  pos = s2.LatLng.from_degrees(V.real('lat', -59, 59, pts=[0]),
                               V.real('lng', -180, 180))
  now = dt.datetime(1970, 1, 1, tzinfo=UTC) + dt.timedelta(
      seconds=V.real('unix_s', 1e5, 3.8e9))
  el = lambda t: solar.solar_calculator(pos, t)[0]
  m = lambda x: dt.timedelta(minutes=x)
  asked_before(V, solar.get_next_sunrise_sunset, (pos, now), (
      s2.LatLng.from_degrees(V.real('lat', -59, 59), V.real('lng', -180, 180)),
      now + dt.timedelta(hours=V.real('hours', -40, 40))))
  rise, fall = solar.get_next_sunrise_sunset(pos, now)
  for t, s in ((rise, 1), (fall, -1)):
    V.prove('ahead, within a day', now <= t <= now + dt.timedelta(hours=24.1))
    a, b = (s * (el(t + m(x)) - CUTOFF) for x in (-8, 8))
    V.prove('crosses the cut-off', a < .02 and b > -.02)
  noon, top = solar.get_next_solar_noon(pos, now)
  mid, low = solar.get_next_solar_midnight(pos, now)
  for t, s, e in ((noon, 1, top), (mid, -1, low)):
    V.prove('ahead, within a day (noon, midnight)',
            now <= t <= now + dt.timedelta(hours=24.1))
    V.prove('extreme of the day', s * e > s * el(t - m(360)) and
            s * e > s * el(t + m(360)))
    V.prove('extreme nearby', s * e > s * max(
        (el(t + m(x)) * s for x in (-20, 20))) * s - .01)
  V.prove('sunrise and sunset enclose noon or midnight',
          (fall < rise) == (el(now) >= CUTOFF) or
          min(abs((now - x).total_seconds()) % DAY for x in (rise, fall)) < 600
          or min(abs((x - now).total_seconds()) for x in (rise, fall)) < 600)

"""C16 offsets on the globe."""
import copy
import math
import pickle

from balloon_learning_environment.utils import spherical_geometry as sg
from props.common import *
from props import flight
from pyver.spec import unit, per_case, bounded_unit
import s2sphere as s2

R_KM = 6371
HALF = math.pi / 2
CENTRES = [s2.LatLng.from_degrees(-3.5, 120.25), s2.LatLng.from_degrees(9, 1)]


def centre(V, limit=89.99):
  lat = V.real('lat', -limit, limit, pts=[0])
  lng = V.real('lng', -180, 180, pts=[0])
  return V.call(s2.LatLng.from_degrees, lat, lng)


def offset(V, far=19000):
  return V.real('x_km', -far, far, pts=[0]), V.real('y_km', -far, far, pts=[0])


def turns(V, d, tol):
  """d is a whole number of turns."""
  if V.concrete_mode:
    return abs(math.remainder(d, 2 * math.pi)) <= tol
  return V.Or(*[V.eq(d, k * 2 * V.const(math.pi)) for k in (-2, -1, 0, 1, 2)])


@unit(trig=True, vc_timeout=30000)
def formula(V):
  """The great-circle destination, normalised."""
  c = centre(V)
  x, y = offset(V)
  if not V.concrete_mode:
    V.assume(V.Or(x != 0, y != 0))
  p = sg.calculate_latlng_from_offset(c, units.Distance(km=x),
                                      units.Distance(km=y))
  phi, lam = c.lat().radians, c.lng().radians
  m = V.math
  dist = m('sqrt', (x * 1000)**2 + (y * 1000)**2)
  a = dist / (R_KM * 1000)
  head = m('atan2', x, y)
  s_lat = (m('cos', a) * m('sin', phi) + m('sin', a) * m('cos', phi) *
           m('cos', head))
  V.prove('valid position', V.And(
      p.lat().radians >= -HALF, p.lat().radians <= HALF,
      p.lng().radians >= -math.pi - 1e-15, p.lng().radians <= math.pi + 1e-15))
  V.axiom(V.And(s_lat <= 1, s_lat >= -1))    # lemma destination_is_on_sphere
  if V.concrete_mode:
    s_lat = max(-1, min(1, s_lat))
    V.assume(abs(s_lat) < 1 - 1e-9)
  V.prove('latitude of the destination', V.eq(
      m('sin', p.lat().radians), s_lat))
  d = m('atan2', m('sin', a) * m('cos', phi) * m('sin', head),
        m('cos', a) - m('sin', phi) * s_lat)
  V.prove('longitude of the destination', turns(
      V, p.lng().radians - lam - d, 1e-6))


@unit(vc_timeout=60000)
def destination_is_on_sphere(V):
  """Lemma: that point exists, is as far from the centre as the offset is
  long, and lies in the offset's direction."""
  if V.concrete_mode:
    t = [V.real(n, -3, 3) for n in ('phi', 'a', 'h')]
    sp, sa, sh = map(math.sin, t)
    cp, ca, ch = map(math.cos, t)
  else:
    sp, sa, sh = [V.real(n, -1, 1) for n in ('sp', 'sa', 'sh')]
    cp, ca, ch = [V.real(n, -1, 1) for n in ('cp', 'ca', 'ch')]
    for s, c in ((sp, cp), (sa, ca), (sh, ch)):
      V.assume(s * s + c * c == 1)
  s2_ = ca * sp + sa * cp * ch
  X, Y = ca - sp * s2_, sa * cp * sh
  V.prove('sine of a latitude', V.le(s2_ * s2_, 1))
  # cos(d) = X / (cp c2), sin(d) = Y / (cp c2) with c2 = cos(new latitude)
  V.prove('unit direction', V.eq(X * X + Y * Y, cp * cp * (1 - s2_ * s2_)))
  # haversine: cos(distance) = sp s2 + cp c2 cos(d) = sp s2 + X
  V.prove('distance', V.eq(sp * s2_ + X, ca))


@unit(trig=True, powers=True, vc_timeout=30000)
def zero_offset(V):
  """No offset, no move."""
  c = centre(V)
  p = sg.calculate_latlng_from_offset(c, units.Distance(km=0.0),
                                      units.Distance(km=0.0))
  V.prove('latitude', V.eq(p.lat().radians, c.lat().radians, 1e-6))
  V.prove('longitude', turns(V, p.lng().radians - c.lng().radians, 1e-9))


@unit(trig=True, powers=True, vc_timeout=30000)
def corollary_north(V):
  """Lemma: the destination due north is at latitude phi + distance/radius."""
  phi = V.real('phi', -1.4, 1.4)
  a = V.real('a', 0, .15)
  m = V.math
  s_lat = m('cos', a) * m('sin', phi) + m('sin', a) * m('cos', phi) * m(
      'cos', m('atan2', 0 * a, a + 1))
  V.axiom(V.eq(m('sin', phi + a), m('sin', phi) * m('cos', a) +
               m('cos', phi) * m('sin', a)))     # addition theorem
  V.prove('north by distance over radius', V.eq(m('asin', s_lat), phi + a))


@per_case({n: n for n in ('x', 'y', 'centre', 'both', 'nothing')}, con_max=20)
def where_the_balloon_is(V, what):
  """The position of a balloon is that of its present offset from its present
  station, whatever it was when last asked."""
  s = flight.arbitrary_state(V)
  s.center_latlng = CENTRES[V.choice('station', [0, 1])]
  V.patch(sg, 'calculate_latlng_from_offset',
          lambda c, x, y: (c, x.m, y.m))
  at = lambda: V.And(s.latlng[0] is s.center_latlng, V.eq(
      s.latlng[1], s.x.m), V.eq(s.latlng[2], s.y.m))
  V.prove('here', at())
  if what in ('x', 'both'):
    s.x = units.Distance(m=V.real('x2', -1e6, 1e6))
  if what in ('y', 'both'):
    s.y = units.Distance(m=V.real('y2', -1e6, 1e6))
  if what == 'centre':
    s.center_latlng = CENTRES[V.choice('next', [0, 1])]
  V.prove('there', at())
  c = copy.copy(s)
  c.x = units.Distance(m=V.real('x3', -1e6, 1e6))
  V.prove('a copy, moved', V.And(V.eq(c.latlng[1], c.x.m),
                                 V.eq(c.latlng[2], s.y.m)))
  V.prove('still there', at())


@bounded_unit('sampled: centres and offsets up to 19000 km, some straight '
              'over a pole', con_n=3000, con_budget=20)
def never_refused(V):
  """Every offset has a destination at its distance, also over the poles."""
  c = centre(V, 90)
  x, y = offset(V, 14000)
  if V.choice('over the pole', [True, False]):
    s = V.choice('pole', [1, -1])
    x, y = 0.0, s * (HALF - s * c.lat().radians) * R_KM
  q = c, units.Distance(km=x), units.Distance(km=y)
  asked_before(V, sg.calculate_latlng_from_offset, q, (
      centre(V, 90), *[units.Distance(km=d) for d in offset(V, 14000)]))
  p = sg.calculate_latlng_from_offset(*q)
  V.prove('valid', p.is_valid())
  a = math.hypot(x, y) / R_KM
  a = abs(math.remainder(a, 2 * math.pi))
  V.prove('distance', V.near(c.get_distance(p).radians, a, 1e-6))


@bounded_unit('sampled: positions', con_n=1500, con_budget=20)
def round_trip(V):
  """Pickling and copying keep the position."""
  c = centre(V, 90)
  for q in (pickle.loads(pickle.dumps(c)), copy.deepcopy(c), copy.copy(c)):
    V.prove('unchanged', V.near(q.lat().degrees, c.lat().degrees, 1e-12) and
            V.near(q.lng().degrees, c.lng().degrees, 1e-12))


@bounded_unit('sampled: centres within 80 degrees of the equator, up to '
              '1000 km', con_n=1500, con_budget=20)
def north_and_east(V):
  """North raises the latitude by distance/radius; east raises the
  longitude by distance over the parallel."""
  c = centre(V, 80)
  d = V.real('km', .001, 1000)
  phi, a = c.lat().radians, d / R_KM
  go = lambda x, y: sg.calculate_latlng_from_offset(
      c, units.Distance(km=x), units.Distance(km=y))
  p = go(0.0, d)
  V.prove('north', V.eq(p.lat().radians, phi + a))
  V.prove('due north keeps the longitude', turns(
      V, p.lng().radians - c.lng().radians, 1e-9))
  V.prove('south', V.eq(go(0.0, -d).lat().radians, phi - a))
  for s in (1, -1):
    p = go(s * d, 0.0)
    step = math.remainder(p.lng().radians - c.lng().radians, 2 * math.pi)
    V.prove('east and west', V.eq(step, s * math.atan2(
        math.sin(a), math.cos(a) * math.cos(phi)), 1e-6))

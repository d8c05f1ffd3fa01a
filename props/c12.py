"""C12 solar position and power."""
import math

from balloon_learning_environment.env.balloon import solar
from props.common import *
from pyver.spec import unit, bounded_unit
import s2sphere as s2

PI = math.pi
EPOCH = dt.datetime(1970, 1, 1, tzinfo=UTC)
CUTOFF = -4.242


def place(V):
  lat = V.real('lat', -89.9, 89.9, pts=[0, 23.4, -23.4])
  lng = V.real('lng', -180, 180, pts=[0])
  return lat, lng, V.call(s2.LatLng.from_degrees, lat, lng)


def instant(V):
  if V.concrete_mode:
    return EPOCH + dt.timedelta(seconds=V.real('unix_s', 0, 4e9, pts=[
        0, 951782400, 1582934400]))
  return V.datetime('unix_s', 0, 4e9)


def almanac(lat, lng, ts):
  """Independent low-precision ephemeris (Astronomical Almanac), degrees."""
  n = ts / 86400 - 10957.5
  L = 280.460 + .9856474 * n
  g = math.radians(357.528 + .9856003 * n)
  lam = math.radians(L + 1.915 * math.sin(g) + .020 * math.sin(2 * g))
  eps = math.radians(23.439 - 4e-7 * n)
  ra = math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam))
  dec = math.asin(math.sin(eps) * math.sin(lam))
  gmst = 15 * (6.697375 + .0657098242 * n + (ts % 86400) / 3600)
  ha = math.radians(gmst + lng) - ra
  la = math.radians(lat)
  sin_el = (math.sin(la) * math.sin(dec) +
            math.cos(la) * math.cos(dec) * math.cos(ha))
  el = math.degrees(math.asin(max(-1, min(1, sin_el))))
  az = math.degrees(math.atan2(
      -math.sin(ha) * math.cos(dec),
      math.sin(dec) * math.cos(la) - math.cos(dec) * math.cos(ha) *
      math.sin(la))) % 360
  r = 1.00014 - .01671 * math.cos(g) - .00014 * math.cos(2 * g)
  return el, az, 1366 / r**2


def refraction(el):
  """NOAA's published refraction correction (degrees)."""
  t = math.tan(math.radians(el))
  if el > 85:
    return 0
  if el > 5:
    r = 58.1 / t - .07 / t**3 + .000086 / t**5
  elif el > -.575:
    r = 1735 + el * (-518.2 + el * (103.4 + el * (-12.79 + el * .711)))
  else:
    r = -20.772 / t
  return r / 3600


@bounded_unit('sampled: 30000 positions and times 1970-2096',
              con_n=1500, con_budget=40)
def ephemeris(V):
  """Elevation, azimuth and flux agree with an independent ephemeris."""
  lat, lng, pos = place(V)
  t = instant(V)
  asked_before(V, solar.solar_calculator, (pos, t), (place(V)[2], V.choice(
      'another time', [instant(V), t + dt.timedelta(hours=1),
                       t + dt.timedelta(seconds=20)])))
  el, az, flux = solar.solar_calculator(pos, t)
  e2, a2, f2 = almanac(lat, lng, t.timestamp())
  V.prove('range of the elevation', -90 <= el <= 90)
  V.prove('range of the azimuth', 0 <= az <= 360)
  V.prove('elevation', V.near(el, e2 + refraction(e2), .035) or min(
      abs(e2 - c) for c in (5, -.575, 85)) < .03)
  if abs(e2) < 85:
    d = (az - a2 + 180) % 360 - 180
    V.prove('azimuth', abs(d) * math.cos(math.radians(e2)) < .04)
  V.prove('flux', V.near(flux, f2, 3.0))


@bounded_unit('every day 1900-2199 at one place, an instant a day',
              con_n=1, con_budget=100)
def every_day(V):
  """No calendar day (leap years, month ends, centuries) is off: the flux is
  that of the published orbit at the time elapsed since noon of the first of
  January 2000."""
  pos = s2.LatLng.from_degrees(10.0, 20.0)
  t = dt.datetime(1900, 1, 1, 0, 30, tzinfo=UTC)
  worst, day = 0, None
  while t.year < 2200:
    T = (t.timestamp() / 86400 - 10957.5) / 36525
    e = .016708634 - T * (.000042037 + .0000001267 * T)
    m = math.radians(357.52911 + T * (35999.05029 - .0001537 * T))
    flux = 1366 * (1 + .5 * (((1 + e) / (1 - e))**2 - 1) * math.cos(m))
    off = abs(solar.solar_calculator(pos, t)[2] - flux)
    if off > worst:
      worst, day = off, t
    t += dt.timedelta(hours=25)
  V.prove('flux of every day', worst < 1e-6, info=f'{worst} {day}')


@bounded_unit('every day 1950-2101 at one place, an instant a day',
              con_n=1, con_budget=100)
def every_night(V):
  """The sun of every day is where the independent ephemeris has it."""
  pos = s2.LatLng.from_degrees(10.0, 20.0)
  t = dt.datetime(1950, 1, 1, 0, 30, tzinfo=UTC)
  worst, day = 0, None
  while t.year < 2102:
    el, _, _ = solar.solar_calculator(pos, t)
    e2, _, _ = almanac(10.0, 20.0, t.timestamp())
    off = abs(el - e2 - refraction(e2))
    if off > worst:
      worst, day = off, t
    t += dt.timedelta(hours=28)
  V.prove('elevation of every day', worst < .25, info=f'{worst} {day}')


ZENITHS = [
    (dt.datetime(2014, 8, 4, 18, 19, 42, tzinfo=UTC), 17.10924831921632,
     -93.40462561474389)]


@bounded_unit('sampled: 60 instants, the place the sun is above, found by '
              'descent', con_n=60, con_budget=30)
def zenith(V):
  """A sun straight overhead has an elevation, an azimuth and a flux."""
  if V.int('pinned', 0, 4) == 0:
    t, lat, lng = V.choice('place', ZENITHS)
  else:
    t = EPOCH + dt.timedelta(seconds=V.int('unix_s', 0, 4 * 10**9))
    # Newton on the zenith distance, which the elevation gives near the zenith.
    up = lambda a, b: solar.solar_calculator(s2.LatLng.from_degrees(a, b), t)[0]
    lat, lng = max(((a, b) for a in range(-25, 26, 10)
                    for b in range(-180, 180, 10)), key=lambda p: up(*p))
    step = 8.0
    while step > 1e-10:
      lat, lng = max([(lat, lng)] + [
          (min(max(lat + i * step, -89), 89),
           min(max(lng + j * step, -180), 180))
          for i, j in ((1, 0), (-1, 0), (0, 1), (0, -1))],
                     key=lambda p: -1 if math.isnan(up(*p)) else up(*p))
      step *= .6
  for i in range(-3, 4):
    for j in range(-3, 4):
      el, az, flux = solar.solar_calculator(s2.LatLng.from_degrees(
          lat + i * 1e-9, min(max(lng + j * 1e-9, -180), 180)), t)
      V.prove('elevation overhead', 89 < el <= 90, info=f'{el}')
      V.prove('azimuth overhead', 0 <= az <= 360, info=f'{az}')
      V.prove('flux overhead', 1300 < flux < 1450)


@bounded_unit('sampled: 200 positions, instants and time zones',
              con_n=200, con_budget=20)
def one_instant(V):
  """The same instant gives the same sun, whatever its time zone."""
  _, _, pos = place(V)
  t = instant(V)
  zoned = V.in_zone(t, V.int('offset_min', -14 * 60, 14 * 60, pts=[
      0, 60, -480, 330]))
  a = solar.solar_calculator(pos, t)
  b = solar.solar_calculator(pos, zoned)
  for name, x, y in zip(('elevation', 'azimuth', 'flux'), a, b):
    V.prove(f'same {name}', V.eq(x, y))


@unit(con_max=20)
def naive_times(V):
  """Times without a time zone are refused."""
  _, _, pos = place(V)
  kind, x = V.run(solar.solar_calculator, pos, dt.datetime(
      V.choice('year', [1970, 2021]), 5, 6, 7, 8, 9))
  V.prove('naive time is refused', kind == 'raise' and isinstance(
      x, ValueError))


@unit()
def invalid_positions(V):
  """Latitudes beyond the poles and longitudes beyond 180 are refused."""
  lat = V.real('lat', -400, 400, pts=[90, -90, 0])
  lng = V.real('lng', -400, 400, pts=[180, -180, 0])
  V.assume(V.Or(lat > 90.001, lat < -90.001, lng > 180.001, lng < -180.001))
  pos = s2.LatLng.from_degrees(lat, lng)
  t = dt.datetime(2021, 5, 6, 7, 8, 9, tzinfo=UTC)
  kind, x = V.run(solar.solar_calculator, pos, t)
  V.prove('refused', kind == 'raise' and isinstance(x, ValueError))


def attenuation_args(V, lo=-90):
  return (V.real('el', lo, 90, pts=[CUTOFF, 0, 90, -90]),
          V.real('p', 0, 101325, pts=[0, 101325, 5000]))


@unit(powers=True, vc_timeout=20000)
def attenuation_range(V):
  """In [0, 1]; zero exactly below the cut-off."""
  el, p = attenuation_args(V)
  asked_before(V, solar.solar_atmospheric_attenuation, (el, p),
               attenuation_args(V), symbolic=False)
  a = V.call(solar.solar_atmospheric_attenuation, el, p)
  V.prove('in [0, 1]', V.And(a >= 0, V.le(a, 1)))
  V.prove('zero below the cut-off', V.Implies(el < CUTOFF, V.eq(a, 0)))
  V.prove('some light above it', V.Implies(el >= CUTOFF, a > 0))


@unit(powers=True, vc_timeout=20000)
def attenuation_formula(V):
  """Mean of the two bands' Beer-Lambert extinction at the air mass."""
  V.exactify(solar)
  el, p = attenuation_args(V, CUTOFF)
  V.away(el, CUTOFF)
  a = solar.solar_atmospheric_attenuation(el, p)
  s = 614 * V.math('sin', V.math('radians', el))
  root = V.math('sqrt', 1229 + s * s)
  m = .34764 * (p / 101325) * (root - s)
  V.prove('documented air mass and extinction', V.eq(
      a, .5 * (V.math('exp', -.65 * m) + V.math('exp', -.95 * m))))


@unit()
def attenuation_refusals(V):
  """Elevations beyond 90 degrees and impossible pressures are refused."""
  el = V.real('el', -400, 400, pts=[90, -90])
  p = V.real('p', -1e5, 1e6, pts=[0, 101325])
  ok = V.And(el <= 90, el >= -90, p >= 0, p <= 101325)
  kind, x = V.run(solar.solar_atmospheric_attenuation, el, p)
  V.prove('refused exactly outside the domain', V.Iff(kind == 'ok', ok))
  V.prove('documented error', kind == 'ok' or isinstance(x, ValueError))


@unit(powers=True, vc_timeout=20000)
def attenuation_grows(V):
  """A higher sun is attenuated less; so is a higher balloon."""
  el, p = attenuation_args(V)
  higher = V.real('higher', -90, 90, pts=[CUTOFF])
  V.assume(higher >= el)
  a = solar.solar_atmospheric_attenuation(el, p)
  b = solar.solar_atmospheric_attenuation(higher, p)
  V.prove('grows with elevation', V.le(a, b))


@unit(powers=True, vc_timeout=20000)
def attenuation_thins(V):
  el, p = attenuation_args(V)
  thinner = V.real('thinner', 0, 101325)
  V.assume(thinner <= p)
  V.prove('grows as the air gets thinner', V.le(
      solar.solar_atmospheric_attenuation(el, p),
      solar.solar_atmospheric_attenuation(el, thinner)))


@unit(powers=True)
def shadow(V):
  """Panels are shaded exactly when the sun is behind the balloon."""
  el = V.real('el', -90, 90)
  h = V.real('h', 0, 20, pts=[3.3, 2.7])
  limit = math.degrees(math.atan2(math.sqrt(h * (10.41603 + h)), 8.69275)) if (
      V.concrete_mode) else V.math('degrees', V.math(
          'atan2', V.math('sqrt', h * (V.const(10.41603) + h)),
          V.const(8.69275)))
  V.away(el, limit) if V.concrete_mode else None
  x = solar.balloon_shadow(el, h)
  V.prove('shadow factor', V.eq(x, V.ite(el >= limit, .4392, 1.0)))


@unit(powers=True, vc_timeout=20000)
def power(V):
  """The panel formula; never negative, zero when the sun is too low."""
  el, p = attenuation_args(V)
  x = solar.solar_power(el, p).watts
  att = solar.solar_atmospheric_attenuation(el, p)
  low, high = solar.balloon_shadow(el, 3.3), solar.balloon_shadow(el, 2.7)
  cos = lambda d: V.math('cos', V.math('radians', el - d))
  V.prove('panel formula', V.eq(
      x, 210 * att * (4 * cos(35) * low + 2 * cos(65) * high)))
  V.prove('never negative', x >= 0)
  V.prove('no sun, no power', V.Implies(el < CUTOFF, V.eq(x, 0)))

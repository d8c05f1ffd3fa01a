"""C11 heat exchange."""
import inspect

from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.env.balloon import thermal
from props.common import *
from pyver.spec import unit

CONV_SIG = inspect.signature(thermal.convective_heat_air_factor)
SIGMA, ABS_SOLAR, REFL, CP = 5.6704e-8, .01435, .0291, 1500


def temp(V, name):
  return V.real(name, 150, 350, pts=[206, 210])


@unit(powers=True)
def black_body(V):
  """Flux is sigma T^4 and its inverse recovers the temperature."""
  t = V.real('t', 0, 2000, pts=[206], lo_open=True)
  f = thermal.black_body_temperature_to_flux(t)
  V.prove('Stefan-Boltzmann', V.eq(f, V.const(SIGMA) * t * t * t * t))
  V.prove('inverse', V.eq(thermal.black_body_flux_to_temperature(f), t))
  flux = V.real('flux', 0, 3000, lo_open=True)
  back = thermal.black_body_temperature_to_flux(
      thermal.black_body_flux_to_temperature(flux))
  V.prove('inverse the other way', V.eq(back, flux))


def total(a, r):
  return a * (1 + (1 - a - r) / (1 - r))


@unit()
def absorptivity(V):
  """Total absorptivity: closed form, always in [0, 1] or refused."""
  a, r = V.real('a', -1, 2, pts=[0, 1]), V.real('r', -1, .999, pts=[0])
  kind, x = V.run(thermal.total_absorptivity, a, r)
  want = total(a, r)
  V.away(want, 0)
  V.away(want, 1)
  ok = V.And(want >= 0, want <= 1)
  V.prove('refused exactly outside [0, 1]', V.Iff(kind == 'ok', ok))
  if kind == 'ok':
    V.prove('closed form of the reflection series', V.eq(x, want))
  else:
    V.prove('documented error', isinstance(x, ValueError))


@unit()
def film_is_valid(V):
  """The film's absorptivity is accepted at every plausible temperature."""
  t = V.real('t', 100, 400)
  a = thermal.absorptivity_ir(t)
  V.prove('linear model', V.eq(a, V.const(.04587) + V.const(.000232) * (
      t - 210)))
  x = thermal.total_absorptivity(a, REFL)
  V.prove('in [0, 1]', V.And(x >= 0, x <= 1))


@unit(powers=True)
def convection(V):
  """Convection flows from hot to cold, zero at equal temperatures."""
  r = V.real('radius', 1, 30, pts=[7.5])
  tb, ta = temp(V, 't_balloon'), temp(V, 't_ambient')
  p = V.real('p', 1000, 120000)
  if V.concrete_mode and V.choice('same', [False, False, False, True]):
    tb = ta
  q = thermal.convective_heat_air_factor(r, tb, ta, p)
  V.prove('warms a colder balloon', V.Iff(q > 0, ta > tb))
  V.prove('cools a hotter balloon', V.Iff(q < 0, ta < tb))
  V.prove('nothing at equal temperatures', V.Implies(ta == tb, V.eq(q, 0)))


# radius, gas and ambient temperature, pressure
POINTS = [(7.5, 206., 210., 9000.), (8.2, 230., 205., 11000.),
          (2., 300., 250., 101325.), (20., 180., 290., 5000.),
          (7., 219.5, 220., 7000.), (9., 221., 220., 14000.)]


@unit(con_max=12)
def convection_correlation(V):
  """The free convection correlation of a sphere, at sample points."""
  r, tb, ta, p = V.choice('point', POINTS)
  mu = 1.458e-6 * ta**1.5 / (ta + 110.4)              # Sutherland
  k = .0241 * (ta / 273.15)**.9
  rho = p * .0289644 / (8.3144621 * ta)
  gr = 9.80665 * rho**2 * (2 * r)**3 * abs(ta - tb) / (ta * mu**2)
  ra = gr * (.804 - 3.25e-4 * ta)
  nu = 2 + .457 * ra**.25 + (1 + 2.69e-8 * ra)**(1 / 12)
  asked_before(V, thermal.convective_heat_air_factor, (r, tb, ta, p),
               V.choice('point', POINTS), symbolic=False)
  q = thermal.convective_heat_air_factor(r, tb, ta, p)
  V.prove('Nusselt number', V.near(q / (nu * k / (2 * r) * (ta - tb)), 1, 1e-3))


@unit(powers=True)
def convection_grows(V):
  """At fixed ambient a larger difference exchanges more heat."""
  r = V.real('radius', 1, 30, pts=[7.5])
  ta = temp(V, 't_ambient')
  p = V.real('p', 1000, 120000)
  d1 = V.real('d1', 0, 40)
  d2 = d1 + V.real('more', .01, 40)
  side = V.choice('side', [1, -1])
  q1 = thermal.convective_heat_air_factor(r, ta + side * d1, ta, p)
  q2 = thermal.convective_heat_air_factor(r, ta + side * d2, ta, p)
  mirror = thermal.convective_heat_air_factor(r, ta - side * d1, ta, p)
  V.prove('the same difference either way exchanges the same heat', V.eq(
      mirror, -q1))
  V.prove('more difference, more heat', (q2 < q1) if side == 1 else (q2 > q1))


def derivative(V, rec, solar_flux):
  vol, mass = rec['vol'], rec['mass']
  return thermal.d_balloon_temperature_dt(
      vol, mass, rec['t'], rec['ta'], rec['p'], rec['el'], solar_flux,
      rec['earth'])


def setup(V):
  V.exactify(thermal)
  rec = dict(vol=V.real('vol', 100, 5000, pts=[1804]),
             mass=V.real('mass', 10, 200), t=temp(V, 't'), ta=temp(V, 'ta'),
             p=V.real('p', 1000, 120000), el=V.real('el', -90, 90),
             earth=V.real('earth', 100, 400, pts=[250]))
  seen = rec['seen'] = {}

  def attenuation(el, p):
    seen['att'] = (el, p)
    rec['att'] = V.real('attenuation', 0, 1) if 'att' not in rec else rec['att']
    return rec['att']

  def convective(*a, **k):
    seen['conv'] = CONV_SIG.bind(*a, **k).arguments
    rec['q'] = V.real('q', -50, 50) if 'q' not in rec else rec['q']
    return rec['q']
  V.patch(solar, 'solar_atmospheric_attenuation', attenuation)
  V.patch(thermal, 'convective_heat_air_factor', convective)
  return rec


@unit(powers=True, vc_timeout=20000)
def balance(V):
  """dT/dt is the net heat over the heat capacity of the envelope."""
  rec = setup(V)
  flux = V.real('solar_flux', 0, 1500)
  got = derivative(V, rec, flux)
  conv = rec['seen']['conv']
  r = conv['balloon_radius']
  V.prove('radius of the sphere', V.And(r > 0, V.eq(
      4 * V.const(np.pi) * r * r * r, 3 * rec['vol'])))
  V.prove('convection of this balloon in this air', V.And(
      V.eq(conv['balloon_temperature_k'], rec['t']),
      V.eq(conv['ambient_temperature_k'], rec['ta']),
      V.eq(conv['pressure_altitude_pa'], rec['p'])))
  V.prove('attenuation at this sun and pressure', V.And(
      V.eq(rec['seen']['att'][0], rec['el']),
      V.eq(rec['seen']['att'][1], rec['p'])))
  R = V.const(REFL)
  air = lambda t: V.const(.04587) + V.const(.000232) * (t - 210)
  te = thermal.black_body_flux_to_temperature(rec['earth'])
  per_area = (flux * rec['att'] * V.const(.25) * total(V.const(ABS_SOLAR), R) +
              rec['earth'] * V.const(.4605) * total(air(te), R) + rec['q'] -
              V.const(SIGMA) * rec['t'] ** 4 * total(air(rec['t']), R))
  area = 4 * V.const(np.pi) * r * r
  V.prove('energy balance', V.eq(got * CP * rec['mass'], per_area * area, 1e-6))


@unit(powers=True, vc_timeout=20000)
def sun_warms(V):
  """More solar flux never cools the balloon."""
  rec = setup(V)
  f1 = V.real('flux', 0, 1500)
  f2 = f1 + V.real('more', 0, 1500)
  a, b = derivative(V, rec, f1), derivative(V, rec, f2)
  V.prove('monotone in solar flux', V.le(a, b))

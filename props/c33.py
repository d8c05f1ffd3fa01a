"""C33 stable initialisation."""
import inspect
import types

from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.env.balloon import thermal
from props import flight
from props.common import *
from props.flight import R, M_AIR, M_HE
from pyver.spec import unit, per_case, bounded_unit
import s2sphere as s2

ENVELOPE = inspect.signature(balloon.calculate_superpressure_and_volume)
THERMAL = inspect.signature(thermal.d_balloon_temperature_dt)
STABLE = ['ambient_temperature', 'internal_temperature', 'mols_air',
          'envelope_volume', 'superpressure']


def callees(V, rate):
  """The callees by their contracts; records what they were given."""
  rec = types.SimpleNamespace(rates=[], envelope=[], at=[], sun=[])
  rec.ambient = V.real('ambient_k', 150, 330, pts=[206])
  rec.elevation = V.real('elevation', -90, 90)
  rec.flux = V.real('flux', 1300, 1420)
  rec.volume = V.real('volume_out', 500, 5000)
  rec.superpressure = V.real('superpressure_out', 0, 9000)
  atm = real_atmosphere()

  def at_pressure(self, pressure):
    rec.at.append((self, pressure))
    return standard_atmosphere.AtmosphericValues(
        units.Distance(m=17000), rec.ambient, pressure, .1)

  def sun(latlng, when):
    rec.sun.append((latlng, when))
    return rec.elevation, -7.0, rec.flux

  def heat(*a, **k):
    g = THERMAL.bind(*a, **k).arguments
    rec.rates.append(g)
    return rate(g['balloon_temperature_k'])

  def model(*a, **k):
    rec.envelope.append(ENVELOPE.bind(*a, **k).arguments)
    return rec.volume, rec.superpressure
  V.patch(standard_atmosphere.Atmosphere, 'at_pressure', at_pressure)
  V.patch(solar, 'solar_calculator', sun)
  V.patch(thermal, 'd_balloon_temperature_dt', heat)
  V.patch(balloon, 'calculate_superpressure_and_volume', model)
  return atm, rec


def arbitrary_inputs(V):
  return dict(
      pressure=V.real('pressure', 1000, 101325, pts=[6000, 14000]),
      envelope_volume_base=V.real('v0', 500, 4000, pts=[1804]),
      envelope_volume_dv_pressure=V.real('dv', .001, .1, pts=[.0199]),
      envelope_mass=V.real('envelope_kg', 10, 200, pts=[68.5]),
      payload_mass=V.real('payload_kg', 10, 300, pts=[92.5]),
      mols_lift_gas=V.real('mols_gas', 1000, 20000, pts=[6830]),
      latlng=s2.LatLng.from_degrees(1.5, 31.0),
      date_time=flight.T0 + V.delta('clock_s', 0, 1e6),
      upwelling_infrared=V.real('infrared', 100, 350, pts=[250]))


def affine(V):
  """A rate of temperature change that falls to 0 at the equilibrium."""
  slope = V.real('slope', 1e-4, 1)
  at = V.real('equilibrium_k', 150, 330, pts=[206, 206.01])
  return (lambda t: slope * (at - t)), at


@unit(con_max=100)
def equilibrium(V):
  """Air load, temperatures, volume and superpressure of the result."""
  rate, at = affine(V)
  atm, rec = callees(V, rate)
  q = arbitrary_inputs(V)
  out = stable_init.calculate_stable_params_for_pressure(
      **q, atmosphere=atm)
  V.prove('temperature of the air at that pressure', V.And(
      V.eq(out.ambient_temperature, rec.ambient),
      *[V.eq(p, q['pressure']) for _, p in rec.at]))
  V.prove('of the atmosphere given', rec.at and all(
      a is atm for a, _ in rec.at))
  displaced = (q['pressure'] * M_AIR * q['envelope_volume_base'] /
               (R * rec.ambient))
  empty = (q['envelope_mass'] + q['payload_mass'] +
           M_HE * q['mols_lift_gas'])
  n = out.mols_air
  V.prove('no negative air load', n >= 0)
  V.prove('floats at the pressure', V.Implies(
      displaced > empty, V.near(displaced, empty + M_AIR * n, 1e-6)))
  V.prove('no air where it is too heavy anyway', V.Implies(
      displaced <= empty, V.eq(n, 0)))
  near = 1e-4 if V.concrete_mode else 0
  V.prove('thermal equilibrium', V.near(out.internal_temperature, at, near))
  V.prove('the sun there and then', all(
      p == q['latlng'] for p, _ in rec.sun) and len(rec.sun) > 0)
  for _, when in rec.sun:
    V.prove('the sun at that time', V.eq(V.secs(when - q['date_time']), 0))
  for g in rec.rates:
    V.prove('heat balance of this balloon', V.And(
        V.eq(g['balloon_volume'], q['envelope_volume_base']),
        V.eq(g['balloon_mass'], q['envelope_mass']),
        V.eq(g['ambient_temperature_k'], rec.ambient),
        V.eq(g['pressure_altitude_pa'], q['pressure']),
        V.eq(g['solar_elevation_deg'], rec.elevation),
        V.eq(g['solar_flux'], rec.flux),
        V.eq(g['earth_flux'], q['upwelling_infrared'])))
  g = rec.envelope[-1]
  V.prove('envelope model of this balloon', V.And(
      V.eq(g['mols_lift_gas'], q['mols_lift_gas']), V.eq(g['mols_air'], n),
      V.eq(g['internal_temperature'], out.internal_temperature),
      V.eq(g['pressure'], q['pressure']),
      V.eq(g['envelope_volume_base'], q['envelope_volume_base']),
      V.eq(g['envelope_volume_dv_pressure'],
           q['envelope_volume_dv_pressure'])))
  V.prove('volume and superpressure of the model', V.And(
      V.eq(out.envelope_volume, rec.volume),
      V.eq(out.superpressure, rec.superpressure)))


@unit(con_max=100, vc_timeout=60)
def kinked(V):
  """The equilibrium is found although the heat exchange changes slope where
  the gas is as warm as the air."""
  left, right = V.real('left', 1e-4, 1), V.real('right', 1e-4, 1)
  kink = V.real('kink_k', 150, 330)
  at_kink = V.real('rate_at_kink', -1, 1)
  V.assume(V.Or(at_kink > .1, at_kink < -.1))
  V.assume(V.Or(kink > 206.01, kink < 205.99))

  def rate(t):
    if t < kink:
      return at_kink + left * (kink - t)
    return at_kink - right * (t - kink)
  atm, rec = callees(V, rate)
  out = stable_init.calculate_stable_params_for_pressure(
      **arbitrary_inputs(V), atmosphere=atm)
  near = 1e-4 if V.concrete_mode else 0
  V.prove('equilibrium', V.near(
      rate(out.internal_temperature), 0, 2e-5 + near))


@unit(con_max=40)
def cold_start(V):
  """The five stable values are taken over; nothing else changes."""
  q = {n: V.real(f'new_{n}', 0, 1000, pts=[0]) for n in STABLE}
  atm = real_atmosphere()
  given = []
  sig = inspect.signature(stable_init.calculate_stable_params_for_pressure)

  def stable(*a, **k):
    given.append(sig.bind(*a, **k).arguments)
    return stable_init.StableParams(**q)
  V.patch(stable_init, 'calculate_stable_params_for_pressure', stable)
  s = flight.arbitrary_state(V)
  o = flight.snapshot(s)
  stable_init.cold_start_to_stable_params(s, atm)
  n = flight.snapshot(s)
  for name, x in vars(o).items():
    y = getattr(n, name)
    if name in STABLE:
      V.prove(f'new {name}', V.eq(y, q[name]))
    elif name == 'date_time':
      V.prove('same date_time', V.eq(V.secs(y - x), 0))
    elif name == 'time_elapsed':
      V.prove('same time_elapsed', V.eq(V.secs(y), V.secs(x)))
    elif name in flight.PLAIN or name in flight.UNIT:
      V.prove(f'same {name}', V.eq(y, x))
    else:
      V.prove(f'same {name}', y == x)
  V.prove('asked once', len(given) == 1)
  for name, x in given[0].items():
    if name == 'latlng':
      V.prove('of this place', x == s.latlng)
    elif name == 'date_time':
      V.prove('of this time', V.eq(V.secs(x - o.date_time), 0))
    elif name == 'atmosphere':
      V.prove('of this atmosphere', x is atm)
    else:
      V.prove(f'of this {name}', V.eq(x, getattr(o, name)))


@bounded_unit('sampled balloons, places and times', con_n=150, con_budget=60)
def settled(V):
  """The real thermal model is at rest at the temperature found."""
  p = float(V.real('pressure', 3000, 20000))
  ir = float(V.real('infrared', 100, 350))
  v0, m = float(V.real('v0', 500, 4000, pts=[1804])), float(
      V.real('envelope_kg', 10, 200, pts=[68.5]))
  here = s2.LatLng.from_degrees(float(V.real('lat', -60, 60)),
                                float(V.real('lng', -180, 180)))
  when = dt.datetime(2011, 1, 1, tzinfo=UTC) + dt.timedelta(
      seconds=float(V.real('clock_s', 0, 3e7)))
  out = stable_init.calculate_stable_params_for_pressure(
      p, v0, .0199, m, 92.5, 6830.0, here, when, ir, real_atmosphere())
  elevation, _, flux = solar.solar_calculator(here, when)
  rate = thermal.d_balloon_temperature_dt(
      v0, m, out.internal_temperature, out.ambient_temperature, p, elevation,
      flux, ir)
  V.prove('at rest', abs(rate) < 1e-6)
  volume, pressure = balloon.calculate_superpressure_and_volume(
      6830.0, out.mols_air, out.internal_temperature, p, v0, .0199)
  V.prove('filled accordingly', abs(volume - out.envelope_volume) < 1e-6 and
          abs(pressure - out.superpressure) < 1e-6)
  V.prove('air of that pressure', out.ambient_temperature ==
          real_atmosphere().at_pressure(p).temperature)

"""One simulated sub-step with every callee replaced by its contract.

The callees (sun position, solar power, thermal derivative, envelope model,
compressor tables, atmosphere, position conversion, safety layers) are replaced
in both modes by stubs that return arbitrary values within the contract their
own property establishes (C03, C05-C07, C09-C12, C16) and record their
arguments, so the caller is judged against contracts only.
"""
import copy
import inspect
import types

from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import acs
from balloon_learning_environment.env.balloon import altitude_safety
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import envelope_safety
from balloon_learning_environment.env.balloon import power_safety
from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.env.balloon import thermal
from balloon_learning_environment.utils import spherical_geometry
from props.common import *
import s2sphere as s2

T0 = dt.datetime(2013, 5, 6, 7, 8, 9, tzinfo=UTC)
CENTER = s2.LatLng.from_degrees(-0.84, 30.7)
HERE = s2.LatLng.from_degrees(1.5, 31.0)
OK = balloon.BalloonStatus.OK
R, M_AIR, M_HE, G = 8.3144621, 0.028964922481160, 0.004002602, 9.80665
CUTOFF = -4.242

# the argument names callees are called with, whatever the call style
SIGNATURES = {
    'envelope': inspect.signature(balloon.calculate_superpressure_and_volume),
    'thermal': inspect.signature(thermal.d_balloon_temperature_dt),
    'power': inspect.signature(power_safety.PowerSafetyLayer.get_action),
    'altitude': inspect.signature(
        altitude_safety.AltitudeSafetyLayer.get_action),
    'envelope_layer': inspect.signature(
        envelope_safety.EnvelopeSafetyLayer.get_action)}


def bound(which, a, k):
  """{parameter name: argument} of a recorded call."""
  return SIGNATURES[which].bind(*a, **k).arguments


PLAIN = ['envelope_volume_base', 'envelope_volume_dv_pressure',
         'envelope_mass', 'envelope_max_superpressure', 'envelope_cod',
         'payload_mass', 'pressure', 'ambient_temperature', 'mols_lift_gas',
         'mols_air', 'internal_temperature', 'envelope_volume',
         'superpressure', 'acs_mass_flow', 'upwelling_infrared']
UNIT = {'nighttime_power_load': 'watts', 'daytime_power_load': 'watts',
        'acs_valve_hole_diameter': 'm', 'battery_capacity': 'watt_hours',
        'x': 'm', 'y': 'm', 'acs_power': 'watts', 'solar_charging': 'watts',
        'power_load': 'watts', 'battery_charge': 'watt_hours'}


def arbitrary_state(V, fixed_vehicle=False):
  V.patch(solar, 'get_next_sunrise_sunset', lambda *a, **k: (
      T0 + dt.timedelta(hours=3), T0 + dt.timedelta(hours=14)))
  V.patch(spherical_geometry, 'calculate_latlng_from_offset',
          lambda *a, **k: HERE)
  cap = V.real('capacity_wh', 500, 9000, pts=[3058.56])
  kw = dict(
      center_latlng=CENTER, date_time=T0 + V.delta('clock_s', 0, 1e6),
      time_elapsed=V.delta('elapsed_s', 0, 1e6),
      envelope_volume_base=V.real('v0', 500, 4000, pts=[1804]),
      envelope_volume_dv_pressure=V.real('dv', .001, .1, pts=[.0199]),
      envelope_mass=V.real('envelope_kg', 10, 200, pts=[68.5]),
      envelope_max_superpressure=V.real('max_sp', 700, 4000, pts=[2380]),
      envelope_cod=V.real('cod', .05, 1, pts=[.25]),
      payload_mass=V.real('payload_kg', 10, 300, pts=[92.5]),
      nighttime_power_load=units.Power(watts=V.real('night_w', 0, 500,
                                                    pts=[183.7])),
      daytime_power_load=units.Power(watts=V.real('day_w', 0, 500,
                                                  pts=[120.4])),
      acs_valve_hole_diameter=units.Distance(m=V.real('hole_m', .005, .2,
                                                      pts=[.04])),
      battery_capacity=units.Energy(watt_hours=cap),
      x=units.Distance(m=V.real('x_m', -1e6, 1e6)),
      y=units.Distance(m=V.real('y_m', -1e6, 1e6)),
      pressure=V.real('pressure', 2000, 20000, pts=[6000]),
      ambient_temperature=V.real('t_ambient', 150, 330, pts=[206]),
      mols_lift_gas=V.real('mols_gas', 1000, 20000, pts=[6830]),
      mols_air=V.real('mols_air', 0, 8000, pts=[0]),
      internal_temperature=V.real('t_internal', 150, 330, pts=[206]),
      envelope_volume=V.real('volume', 500, 5000, pts=[1804]),
      superpressure=V.real('superpressure', 0, 3000, pts=[0, 2380]),
      acs_power=units.Power(watts=V.real('old_acs_w', 0, 400)),
      acs_mass_flow=V.real('old_flow', -1, 1),
      solar_charging=units.Power(watts=V.real('old_solar_w', 0, 2000)),
      power_load=units.Power(watts=V.real('old_load_w', 0, 900)),
      battery_charge=units.Energy(watt_hours=V.real('soc', 0, 1, pts=[
          0, 1, .001, .999]) * cap),
      last_command=V.choice('old_command', [CMD.STAY]),
      upwelling_infrared=V.real('infrared', 100, 350, pts=[250]))
  s = balloon.BalloonState(**kw)
  return s


def snapshot(s):
  o = types.SimpleNamespace()
  for n in PLAIN:
    setattr(o, n, getattr(s, n))
  for n, u in UNIT.items():
    setattr(o, n, getattr(getattr(s, n), u))
  o.date_time, o.time_elapsed, o.status = s.date_time, s.time_elapsed, s.status
  o.last_command, o.center_latlng = s.last_command, s.center_latlng
  o.power_safety_layer_enabled = s.power_safety_layer_enabled
  return o


def stub_layers(V, rec, effective=None):
  """Each layer answers `effective[i]` (or passes through) and logs."""
  def mk(i, name):
    def get_action(self, action, *a, **k):
      rec.layers.append((name, self, action, a, k))
      return action if effective is None or effective[i] is None else (
          effective[i])
    return get_action
  for i, (c, n) in enumerate(
      ((power_safety.PowerSafetyLayer, 'power'),
       (envelope_safety.EnvelopeSafetyLayer, 'envelope'),
       (altitude_safety.AltitudeSafetyLayer, 'altitude'))):
    V.patch(c, 'get_action', mk(i, n))


CALM = dict(solar_elevation=30.0, solar_flux=1366.0, solar_w=500.0, dT_dt=0.0,
            new_volume=1804.0, new_superpressure=1000.0, acs_w=200.0,
            efficiency=.2, t_here=210.0, dh=10.0, h0=18000.0, wind_u=3.0,
            wind_v=-4.0)


def stub_callees(V, state, rec, calm=False):
  """calm: fixed benign answers instead of arbitrary ones."""
  rec.steps = 0

  def real(name, lo, hi, pts=()):
    return CALM[name] if calm else V.real(name, lo, hi, pts)

  def latlng(center, x, y):
    rec.latlng = (center, x.m, y.m)
    rec.here = HERE
    if V.concrete_mode:      # another place, another position
      rec.here = s2.LatLng.from_degrees(1.5 + x.m * 1e-6, 31 + y.m * 1e-6)
    return rec.here

  def sun(pos, t):
    rec.sun = (pos, t)
    rec.el = real('solar_elevation', -90, 90, pts=[CUTOFF, 0])
    rec.flux = real('solar_flux', 1300, 1450)
    return rec.el, 180.0, rec.flux

  def solar_power(el, pressure):
    rec.solar_power_args = (el, pressure)
    rec.solar_w = real('solar_w', 0, 2000, pts=[0])
    return units.Power(watts=rec.solar_w)

  def thermal_rate(*a, **k):
    # the sub-step starts here or earlier; its inputs are the old state
    rec.thermal = (a, k)
    rec.steps += 1
    rec.status_at_start = state.status
    rec.dT = real('dT_dt', -1, 1, pts=[0])
    return rec.dT

  def envelope(*a, **k):
    rec.envelope = (a, k)
    rec.vol = real('new_volume', 500, 5000)
    rec.sp = real('new_superpressure', 0, 5000, pts=[0, 2380])
    return rec.vol, rec.sp

  def best_power(ratio):
    rec.ratio1 = ratio
    rec.acs_w = real('acs_w', 100, 400, pts=[100, 400])
    return units.Power(watts=rec.acs_w)

  def efficiency(ratio, power):
    rec.ratio2, rec.eff_w = ratio, power.watts
    rec.eff = real('efficiency', 0, .4, pts=[0, .4])
    return rec.eff

  def at_pressure(self, p):
    p0 = rec.p0()
    t = rec.t_new if rec.t_new is not None else real('t_here', 150, 330)
    rec.t_new = t
    if V.truth(V.exactly(p, p0)):
      rec.at_p0 = True
      return standard_atmosphere.AtmosphericValues(
          units.Distance(m=rec.h0), t, p, .1)
    rec.p1 = p
    d = real('dh', .01, 1000, pts=[10])
    rec.h1 = V.ite(p > p0, rec.h0 - d, rec.h0 + d)
    return standard_atmosphere.AtmosphericValues(
        units.Distance(m=rec.h1), 999.0, p, .1)

  rec.p0 = lambda: state.pressure
  rec.t_new, rec.h0 = None, real('h0', 10000, 30000)
  V.patch(spherical_geometry, 'calculate_latlng_from_offset', latlng)
  V.patch(solar, 'solar_calculator', sun)
  V.patch(solar, 'solar_power', solar_power)
  V.patch(thermal, 'd_balloon_temperature_dt', thermal_rate)
  V.patch(balloon, 'calculate_superpressure_and_volume', envelope)
  V.patch(acs, 'get_most_efficient_power', best_power)
  V.patch(acs, 'get_fan_efficiency', efficiency)
  V.patch(standard_atmosphere.Atmosphere, 'at_pressure', at_pressure)
  rec.wind_u, rec.wind_v = real('wind_u', -100, 100), real(
      'wind_v', -100, 100)
  rec.wind = wind_field.WindVector(units.Velocity(mps=rec.wind_u),
                                   units.Velocity(mps=rec.wind_v))
  return rec


STRIDES = [10, 2.5]
BY_COMMAND = {c.name.lower(): c for c in COMMANDS}


def one_substep(V, action=None, strides=None):
  """-> (old, new, rec): one sub-step from an arbitrary live state."""
  rec = types.SimpleNamespace(layers=[])
  s = arbitrary_state(V)
  other = arbitrary_state(V) if V.concrete_mode else None
  action = V.choice('effective', COMMANDS) if action is None else action
  stub_layers(V, rec, (action,) * 3)
  stub_callees(V, s, rec)
  rec.action = action
  if strides is None:
    rec.stride = V.real('stride_s', .5, 600, pts=[10])
    step = dt.timedelta(seconds=1) * rec.stride
  else:
    rec.stride = V.const(V.choice('stride', strides))
    step = V.const_delta(rec.stride)
  if V.concrete_mode:
    rec.stride = step.total_seconds()
  rec.atm = real_atmosphere()
  if V.concrete_mode:
    flown_before(V, s, other, rec, step)
  old = snapshot(s)
  b = balloon.Balloon(s)
  b.simulate_step(rec.wind, rec.atm, CMD.STAY, step, step)
  rec.state = s
  return old, snapshot(s), rec


def flown_before(V, s, other, rec, step):
  """Flies a neighbour of s first - another balloon at another place, hour or
  pressure, or s itself from another state: a sub-step must not depend on
  that."""
  name = V.choice('flown before with another', [
      None, 'x', 'y', 'pressure', 'date_time', 'mols_air', 'battery_charge',
      'upwelling_infrared', 'internal_temperature', 'nothing', 'everything'])
  if name is None:
    return
  t = s if name == 'everything' else copy.copy(s)
  if name not in ('nothing', 'everything'):
    setattr(t, name, getattr(other, name))
  p0, h0 = rec.p0, rec.h0
  rec.p0 = lambda: t.pressure
  balloon.Balloon(t).simulate_step(rec.wind, rec.atm, CMD.STAY, step, step)
  rec.p0, rec.h0, rec.t_new, rec.steps = p0, h0, None, 0
  rec.layers.clear()
  if name == 'everything':
    for n in [*PLAIN, *UNIT, 'date_time', 'time_elapsed', 'status',
              'last_command', 'center_latlng']:
      setattr(s, n, getattr(other, n))


def unchanged(V, old, new, names):
  V.prove('nothing else changes', V.And(*[
      V.exactly(getattr(old, n), getattr(new, n)) for n in names]))


LOOP = 'balloon_learning_environment.env.balloon.balloon:Balloon.simulate_step'


def substep_loop(V, s, rec, facts):
  """Loop contract of the sub-step loop: facts(k) after k sub-steps; the
  physical domain of the other variables is assumed to persist."""
  rec.k = None

  def inv(V, e):
    rec.k = e['__k']
    out = facts(e['__k'])
    return out if e.phase == 'assume' else out + [('still flying',
                                                   s.status == OK)]

  def havoc(V, e):
    other = arbitrary_state(V)
    for name in PLAIN + list(UNIT):
      setattr(s, name, getattr(other, name))
    s.x = units.Distance(m=V.fresh('x', 'real'))
    s.y = units.Distance(m=V.fresh('y', 'real'))
    s.date_time = T0 + dt.timedelta(seconds=1) * V.fresh('clock', 'real')
    s.time_elapsed = dt.timedelta(seconds=1) * V.fresh('elapsed', 'real')
  V.loop(LOOP, 0, inv, havoc)


def substeps_made(V, s, rec, n):
  """How many sub-steps simulate_step made."""
  if rec.k is None:
    return rec.steps
  return rec.k + 1 if s.status != OK else n

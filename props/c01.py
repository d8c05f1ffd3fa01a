"""C01 battery energy."""
from props.flight import *
from pyver.spec import unit, per_case


@per_case(BY_COMMAND, con_max=400, max_paths=3000)
def battery_update(V, command):
  """Charge, load and solar charging after one sub-step, any command."""
  old, new, rec = one_substep(V, command)
  day = rec.el > CUTOFF
  solar_w = V.ite(day, rec.solar_w if hasattr(rec, 'solar_w') else 0.0, 0.0)
  V.prove('the sun is evaluated at the old position and time', V.And(
      rec.sun[0] == rec.here, V.eq(rec.sun[1], old.date_time),
      V.eq(rec.latlng[1], old.x), V.eq(rec.latlng[2], old.y)))
  if V.truth(day):
    V.prove('solar power is evaluated at the old pressure', V.And(
        V.eq(rec.solar_power_args[0], rec.el),
        V.eq(rec.solar_power_args[1], old.pressure)))
  load = V.ite(day, old.daytime_power_load, old.nighttime_power_load)
  V.prove('solar charging: nothing at night', V.eq(new.solar_charging,
                                                   solar_w))
  V.prove('load is hotel load plus altitude control', V.eq(
      new.power_load, load + new.acs_power))
  e = old.battery_charge + (solar_w - load - new.acs_power) * (
      rec.stride / 3600)
  want = V.min(V.max(e, 0.0), old.battery_capacity)
  V.prove('energy balance, clipped to [0, capacity]', V.eq(
      new.battery_charge, want))
  V.prove('charge stays in [0, capacity]', V.And(
      new.battery_charge >= 0, new.battery_charge <= old.battery_capacity))
  V.away(e, 0)
  V.prove('out of power exactly when the charge reaches zero', V.Iff(
      new.status == balloon.BalloonStatus.OUT_OF_POWER, e <= 0))
  unchanged(V, old, new, ['battery_capacity', 'daytime_power_load',
                          'nighttime_power_load'])


@unit(con_max=300)
def state_of_charge(V):
  """State of charge is charge over capacity, in [0, 1]."""
  s = arbitrary_state(V)
  soc = s.battery_soc
  V.prove('ratio', V.eq(soc * s.battery_capacity.watt_hours,
                        s.battery_charge.watt_hours))
  V.prove('between empty and full', V.And(V.le(0, soc), V.le(soc, 1)))


@unit(con_max=400)
def excess_energy(V):
  """Excess exactly when solar power beats the day load and charge > 99%."""
  rec = types.SimpleNamespace(layers=[])
  s = arbitrary_state(V)
  other = arbitrary_state(V) if V.concrete_mode else None
  stub_callees(V, s, rec)
  if V.concrete_mode and 'soc' not in V.forced:
    k = V.choice('hi', [.5, .989, .991, 1.0])
    s.battery_charge = s.battery_capacity * k
  if V.concrete_mode:
    # s itself, when it was elsewhere, in another state
    name = V.choice('asked before with another', [
        None, 'x', 'y', 'date_time', 'pressure', 'battery_charge',
        'daytime_power_load'])
    if name:
      now = getattr(s, name)
      setattr(s, name, getattr(other, name))
      V.run(lambda: s.excess_energy)
      setattr(s, name, now)
  got = s.excess_energy
  soc = s.battery_charge.watt_hours / s.battery_capacity.watt_hours
  V.away(soc, .99)
  V.prove('excess energy', V.Iff(got, V.And(
      rec.solar_w > s.daytime_power_load.watts, soc > .99)))
  V.prove('evaluated here and now', V.And(
      V.eq(rec.sun[1], s.date_time), rec.sun[0] == rec.here,
      V.eq(rec.solar_power_args[0], rec.el),
      V.eq(rec.solar_power_args[1], s.pressure)))

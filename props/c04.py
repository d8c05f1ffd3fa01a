"""C04 altitude control: ballast air and power."""
from props.flight import *
from pyver.spec import unit, per_case


def mols_follow_flow(V, old, new, rec):
  want = V.max(old.mols_air + new.acs_mass_flow / V.const(M_AIR) * rec.stride,
               0.0)
  V.prove('ballast follows the mass flow, never negative', V.And(
      V.eq(new.mols_air, want), new.mols_air >= 0))
  unchanged(V, old, new, ['mols_lift_gas', 'envelope_mass', 'payload_mass',
                          'acs_valve_hole_diameter', 'envelope_cod',
                          'envelope_volume_base', 'envelope_max_superpressure',
                          'envelope_volume_dv_pressure',
                          'upwelling_infrared'])


@unit(max_paths=3000)
def stay(V):
  """Staying moves no air and draws no altitude-control power."""
  old, new, rec = one_substep(V, CMD.STAY)
  V.prove('no power', V.eq(new.acs_power, 0))
  V.prove('no flow', V.eq(new.acs_mass_flow, 0))
  V.prove('ballast as it was', V.eq(new.mols_air, old.mols_air))
  mols_follow_flow(V, old, new, rec)


@unit(max_paths=3000)
def ascend(V):
  """Ascending vents through the orifice and draws no power."""
  old, new, rec = one_substep(V, CMD.UP)
  V.prove('no power', V.eq(new.acs_power, 0))
  f = new.acs_mass_flow
  V.prove('only vents', f <= 0)
  area = V.const(np.pi) * old.acs_valve_hole_diameter * (
      old.acs_valve_hole_diameter) / 4
  rho = (old.superpressure + old.pressure) * V.const(M_AIR) / (
      V.const(R) * old.internal_temperature)
  V.prove('orifice equation', V.eq(f * f, V.const(.62 * .62) * area * area *
                                   (2 * old.superpressure * rho), 1e-6))
  V.prove('ballast does not grow', V.le(new.mols_air, old.mols_air))
  mols_follow_flow(V, old, new, rec)


@unit(max_paths=3000)
def descend(V):
  """Descending compresses air in at the most efficient power."""
  old, new, rec = one_substep(V, CMD.DOWN)
  ratio = (old.pressure + V.max(old.superpressure, 0.0)) / old.pressure
  V.prove('power for the current pressure ratio', V.eq(rec.ratio1, ratio))
  V.prove('efficiency for that ratio and power', V.And(
      V.eq(rec.ratio2, ratio), V.eq(rec.eff_w, rec.acs_w)))
  V.prove('draws exactly that power', V.eq(new.acs_power, rec.acs_w))
  V.prove('mass flow is efficiency times power', V.eq(
      new.acs_mass_flow * 3600, rec.eff * rec.acs_w))
  V.prove('only takes air in', V.And(new.acs_mass_flow >= 0, V.le(
      old.mols_air, new.mols_air)))
  mols_follow_flow(V, old, new, rec)


@unit(con_max=300)
def pressure_ratio(V):
  """Pressure ratio seen by the compressor, for any superpressure."""
  s = arbitrary_state(V)
  s.superpressure = V.real('sp', -5000, 5000, pts=[0])
  V.prove('ratio', V.eq(s.pressure_ratio * s.pressure,
                        s.pressure + V.max(s.superpressure, 0.0)))
  V.prove('at least one', s.pressure_ratio >= 1)

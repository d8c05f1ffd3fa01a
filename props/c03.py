"""C03 gas law and flight status."""
from props.flight import *
from pyver.spec import unit, per_case


def gas(V):
  return dict(
      mols_lift_gas=V.real('n_gas', 1, 20000, pts=[6830]),
      mols_air=V.real('n_air', 0, 20000, pts=[0, 1000]),
      internal_temperature=V.real('t', 100, 400, pts=[206]),
      pressure=V.real('p', 100, 120000, pts=[6000]),
      envelope_volume_base=V.real('v0', 100, 10000, pts=[1804]),
      envelope_volume_dv_pressure=V.real('k', 1e-4, 1, pts=[.0199]))


@unit(vc_timeout=20000)
def gas_law(V):
  """Volume and superpressure for any gas amount."""
  g = gas(V)
  n = g['mols_lift_gas'] + g['mols_air']
  p, v0, k = (g['pressure'], g['envelope_volume_base'],
              g['envelope_volume_dv_pressure'])
  nrt = n * V.const(R) * g['internal_temperature']
  u = nrt / p
  asked_before(V, balloon.calculate_superpressure_and_volume,
               list(g.values()), list(gas(V).values()), symbolic=False)
  vol, sp = V.call(balloon.calculate_superpressure_and_volume, **g)
  V.away(u, v0, 1e-6)
  if V.truth(u <= v0):
    V.prove('slack: no superpressure', V.eq(sp, 0))
    V.prove('slack: free gas volume', V.eq(vol, u))
  else:
    V.prove('taut: positive volume', vol > 0)
    V.prove('taut: ideal gas law', V.eq((p + sp) * vol, nrt))
    V.prove('taut: envelope stretches linearly', V.eq(vol, v0 + k * sp, 1e-6))
    V.prove('taut: positive superpressure', sp > 0)
    V.prove('taut: between base and free volume', V.And(
        V.lt(v0, vol), V.lt(vol, u)))


@per_case(BY_COMMAND, max_paths=3000)
def status(V, command):
  """Burst, zero pressure, power loss: which status follows a sub-step."""
  old, new, rec = one_substep(V, command)
  S = balloon.BalloonStatus
  V.prove('envelope is the gas law of the old state', V.And(
      V.eq(new.envelope_volume, rec.vol), V.eq(new.superpressure, rec.sp)))
  args = bound('envelope', *rec.envelope)
  for name in ('mols_lift_gas', 'mols_air', 'internal_temperature', 'pressure',
               'envelope_volume_base', 'envelope_volume_dv_pressure'):
    V.prove(f'gas law is given {name}', V.eq(args[name], getattr(old, name)))
  out = new.status == S.OUT_OF_POWER
  V.prove('burst', V.Iff(new.status == S.BURST, V.And(
      rec.sp > old.envelope_max_superpressure, V.Not(out))))
  V.prove('zero pressure', V.Iff(new.status == S.ZEROPRESSURE, V.And(
      rec.sp <= 0, V.Not(out))))
  V.prove('power loss', V.Iff(out, new.battery_charge <= 0))

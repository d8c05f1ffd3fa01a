"""C36 vertical motion."""
from props.flight import *
from pyver.spec import unit, per_case


@per_case(BY_COMMAND, max_paths=3000, vc_timeout=20000)
def buoyancy(V, command):
  """Pressure after one sub-step; gas temperature; ambient temperature."""
  old, new, rec = one_substep(V, command)
  rho = old.pressure * V.const(M_AIR) / (V.const(R) * old.ambient_temperature)
  mass = (V.const(M_HE) * old.mols_lift_gas + V.const(M_AIR) * old.mols_air +
          old.envelope_mass + old.payload_mass)
  lift = rho * old.envelope_volume
  V.away(lift, mass, 1e-6)
  up = V.truth(lift >= mass)
  V.prove('heights are compared one pascal towards the motion', V.eq(
      rec.p1, old.pressure + (1 if up else -1)))
  dp = new.pressure - old.pressure
  dh = rec.h1 - rec.h0
  area = old.envelope_volume ** (2.0 / 3.0)
  force = V.ite(up, lift - mass, mass - lift)
  # (dh/dt)^2 = 2 |lift - weight| g / (rho cod area), dp = dh/dt (p1-p0)/(h1-h0)
  V.prove('terminal velocity', V.eq(
      dp * dh * dp * dh * rho * old.envelope_cod * area,
      2 * force * V.const(G) * rec.stride * rec.stride, 1e-5))
  V.prove('buoyant balloons rise, heavy ones sink',
          dp <= 0 if up else dp >= 0)


@per_case(BY_COMMAND, max_paths=3000)
def temperatures(V, command):
  """Ambient temperature from the atmosphere, gas temperature integrated."""
  old, new, rec = one_substep(V, command)
  V.prove('ambient temperature of the old pressure', V.eq(
      new.ambient_temperature, rec.t_new))
  V.prove('gas temperature integrates its derivative', V.eq(
      new.internal_temperature,
      old.internal_temperature + rec.dT * rec.stride))
  got = list(bound('thermal', *rec.thermal).values())
  want = [old.envelope_volume, old.envelope_mass, old.internal_temperature,
          old.ambient_temperature, old.pressure, rec.el, rec.flux,
          old.upwelling_infrared]
  for i, (g, w) in enumerate(zip(got, want)):
    V.prove(f'thermal model argument {i}', V.eq(g, w))

"""C08 composition of the safety layers."""
from props.flight import *
from pyver.spec import unit, per_case


def executed(V, s, rec, command):
  """The altitude control system did what `command` says."""
  if command == CMD.DOWN:
    return V.eq(s.acs_power.watts, getattr(rec, 'acs_w', s.acs_power.watts))
  off = V.eq(s.acs_power.watts, 0)
  return off if command == CMD.UP else V.And(off, V.eq(s.acs_mass_flow, 0))


SWITCH = {'power_layer_on': True, 'power_layer_off': False}


def chain(V, enabled, calm):
  rec = types.SimpleNamespace(layers=[])
  if calm:             # every combination of commands, one benign state
    arbitrary_state(V)
    s = balloon.BalloonState(center_latlng=CENTER, date_time=T0)
    asked = V.choice('asked', COMMANDS)
    eff = [V.choice(f'layer{i}', COMMANDS) for i in range(3)]
  else:                # every state
    s = arbitrary_state(V)
    asked, eff = CMD.UP, [CMD.DOWN, CMD.STAY, V.choice('last', COMMANDS)]
  last = eff[2]
  s.power_safety_layer_enabled = enabled
  old = snapshot(s)
  layers = (s.power_safety_layer, s.envelope_safety_layer,
            s.altitude_safety_layer)
  stub_layers(V, rec, eff)
  stub_callees(V, s, rec, calm)
  n = V.int('substeps', 0, None, small=4)
  atm = real_atmosphere()
  step = V.const_delta(V.const(10))
  asks = 3 if enabled else 2

  def each(k):
    return [('layers are asked once per step', len(rec.layers) == asks),
            ('effective command executed in every sub-step',
             V.Or(k == 0, executed(V, s, rec, last)))]
  if not calm:
    substep_loop(V, s, rec, each)
  else:
    rec.k, n = None, 2
  balloon.Balloon(s).simulate_step(rec.wind, atm, asked, step * n, step)
  for name, c in each(substeps_made(V, s, rec, n)):
    V.prove('after the step: ' + name, c)
  names = [x[0] for x in rec.layers]
  want = ['power', 'envelope', 'altitude'] if enabled else [
      'envelope', 'altitude']
  V.prove('each layer is asked once, in order', names == want)
  req = asked
  for (name, lay, action, a, k), i in zip(
      rec.layers, range(0 if enabled else 1, 3)):
    V.prove(f'{name} layer filters the command so far', action == req)
    V.prove(f'{name} layer of this balloon', lay is layers[i])
    req = eff[i]
    args = bound({'envelope': 'envelope_layer'}.get(name, name),
                 (lay, action) + a, k)
    if name == 'power':
      t, load, charge, cap = list(args.values())[2:]
      V.prove('power layer sees clock, load, charge, capacity', V.And(
          V.eq(t, old.date_time),
          V.eq(load.watts, old.nighttime_power_load),
          V.eq(charge.watt_hours, old.battery_charge),
          V.eq(cap.watt_hours, old.battery_capacity)))
    elif name == 'envelope':
      V.prove('envelope layer sees the superpressure', V.And(
          len(args) == 3, V.eq(list(args.values())[2], old.superpressure)))
    else:
      at, p = list(args.values())[2:]
      V.prove('altitude layer sees atmosphere and pressure', V.And(
          at is atm, V.eq(p, old.pressure)))
  V.prove('the requested command is recorded', s.last_command == asked)
  V.prove('layer switch untouched',
          s.power_safety_layer_enabled is enabled)


@per_case(SWITCH, max_paths=9000)
def any_state(V, enabled):
  """Requested -> power (if enabled) -> envelope -> altitude -> effective,
  decided once, for any state and any number of sub-steps."""
  chain(V, enabled, False)


@per_case(SWITCH, max_paths=9000)
def any_commands(V, enabled):
  """The same for every combination of commands."""
  chain(V, enabled, True)


@unit(con_max=100)
def paused_is_any(V):
  """Navigation is paused exactly when at least one layer pauses it."""
  s = arbitrary_state(V)
  flags = [V.choice(f'paused{i}', [False, True]) for i in range(3)]
  for i, (c, lay) in enumerate(
      ((power_safety.PowerSafetyLayer, s.power_safety_layer),
       (envelope_safety.EnvelopeSafetyLayer, s.envelope_safety_layer),
       (altitude_safety.AltitudeSafetyLayer, s.altitude_safety_layer))):
    V.patch(c, 'navigation_is_paused', property(
        lambda self, i=i: flags[i], lambda self, x: None))
  V.prove('paused iff any layer is', V.Iff(s.navigation_is_paused, any(flags)))


@unit(con_max=30)
def fresh_layers(V):
  """A new balloon gets its own layers, built from its own parameters."""
  args = {}
  s = arbitrary_state(V)

  def sun(latlng, t, *a, **k):
    args['sun'] = (latlng, t)
    return T0 + dt.timedelta(hours=3), T0 + dt.timedelta(hours=14)

  def env(self, mx, *a, **k):
    args['max'] = mx
  V.patch(solar, 'get_next_sunrise_sunset', sun)
  V.patch(envelope_safety.EnvelopeSafetyLayer, '__init__', env)
  mx, t = V.real('mx', 100, 5000), T0 + V.delta('t', 0, 1e6)
  b = balloon.BalloonState(center_latlng=CENTER, date_time=t,
                           envelope_max_superpressure=mx)
  V.prove('power layer looks up sunrise here and now', V.And(
      args['sun'][0] == HERE, V.eq(args['sun'][1], t)))
  V.prove('envelope layer knows the maximum', V.eq(args['max'], mx))
  V.prove('own layers', b.power_safety_layer is not s.power_safety_layer)

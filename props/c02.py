"""C02 drift and clock."""
from props.flight import *
from balloon_learning_environment.env.balloon import stable_init
from pyver.spec import unit, per_case, bounded_unit


@per_case(BY_COMMAND, max_paths=3000)
def one_stride(V, command):
  """One sub-step of any duration: position, clock, elapsed time."""
  old, new, rec = one_substep(V, command)
  s = rec.stride
  V.prove('moves east by u * stride', V.eq(new.x, old.x + rec.wind_u * s))
  V.prove('moves north by v * stride', V.eq(new.y, old.y + rec.wind_v * s))
  V.prove('clock advances one stride', V.eq(
      V.exact_secs(new.date_time - old.date_time), s, 1e-9))
  V.prove('elapsed time advances one stride', V.eq(
      V.exact_secs(new.time_elapsed - old.time_elapsed), s, 1e-9))
  V.prove('the station stays', new.center_latlng == old.center_latlng)


@per_case(BY_COMMAND, max_paths=3000, con_max=150)
def any_number_of_strides(V, command):
  """duration = N * stride, any N: the loop contract."""
  rec = types.SimpleNamespace(layers=[])
  s = arbitrary_state(V)
  stub_layers(V, rec, (command,) * 3)
  stub_callees(V, s, rec)
  n = V.int('substeps', 0, None, small=6)
  stride = dt.timedelta(seconds=1) * V.real('stride_s', .5, 600, pts=[10])
  ss = V.exact_secs(stride) if not V.concrete_mode else stride.total_seconds()
  x0, y0, t0, e0 = s.x.m, s.y.m, s.date_time, s.time_elapsed

  def at(k):
    return [('east', V.eq(s.x.m, x0 + rec.wind_u * ss * k)),
            ('north', V.eq(s.y.m, y0 + rec.wind_v * ss * k)),
            ('clock', V.eq(V.exact_secs(s.date_time - t0), ss * k, 1e-9)),
            ('elapsed', V.eq(V.exact_secs(s.time_elapsed - e0), ss * k,
                             1e-9))]

  substep_loop(V, s, rec, at)
  balloon.Balloon(s).simulate_step(rec.wind, real_atmosphere(), CMD.STAY,
                                   n * stride, stride)
  ended = s.status != OK
  m = substeps_made(V, s, rec, n)
  V.prove('all sub-steps, or until the flight ended', V.Or(ended, V.eq(m, n)))
  V.prove('never more sub-steps than requested', m <= n)
  if rec.steps:
    V.prove('every sub-step began in flight', rec.status_at_start == OK)
  for name, c in at(m):
    V.prove('after all sub-steps: ' + name, c)


@unit(con_max=200)
def refuses_after_the_end(V):
  """A balloon whose flight has ended does not move."""
  rec = types.SimpleNamespace(layers=[])
  s = arbitrary_state(V)
  stub_layers(V, rec)
  stub_callees(V, s, rec)
  s.status = V.choice('status', [x for x in balloon.BalloonStatus if x != OK])
  old = snapshot(s)
  step = V.const_delta(V.const(10))
  kind, _ = V.run(balloon.Balloon(s).simulate_step, rec.wind,
                  real_atmosphere(), V.choice('action', COMMANDS),
                  V.int('n', 1, 4) * step, step)
  V.prove('refused', kind == 'raise')
  unchanged(V, old, snapshot(s), PLAIN + list(UNIT) + [
      'date_time', 'time_elapsed', 'status'])


@unit(con_max=200)
def refuses_partial_strides(V):
  """Durations that are not a multiple of the stride are refused."""
  rec = types.SimpleNamespace(layers=[])
  s = arbitrary_state(V)
  stub_layers(V, rec)
  stub_callees(V, s, rec)
  old = snapshot(s)
  sec = V.const(V.choice('stride', [10, 2.5, 60]))
  step = V.const_delta(sec)
  rest = V.real('rest', .001, .999, pts=[.1, .5, .9])
  n = V.int('n', 0, None, small=5)
  kind, _ = V.run(balloon.Balloon(s).simulate_step, rec.wind,
                  real_atmosphere(), V.choice('action', COMMANDS),
                  n * step + dt.timedelta(seconds=1) * (rest * sec), step)
  V.prove('refused', kind == 'raise')
  unchanged(V, old, snapshot(s), PLAIN + list(UNIT) + [
      'date_time', 'time_elapsed', 'status'])


@bounded_unit('the default vehicle with the real physics, steps of 400 to '
              '1500 sub-steps', con_n=4, con_budget=60)
def long_steps(V):
  """However many sub-steps a step has, all of them are made."""
  s = balloon.BalloonState(
      center_latlng=s2.LatLng.from_degrees(1.0, 2.0),
      date_time=dt.datetime(2013, 3, 25, 9, tzinfo=UTC))
  atm = real_atmosphere()
  stable_init.cold_start_to_stable_params(s, atm)
  u, v = float(V.real('u', -40, 40)), float(V.real('v', -40, 40))
  n = int(V.int('substeps', 400, 1500))
  x, y, t = s.x.m, s.y.m, s.date_time
  balloon.Balloon(s).simulate_step(
      wind_field.WindVector(units.Velocity(mps=u), units.Velocity(mps=v)),
      atm, CMD.STAY, n * dt.timedelta(seconds=10), dt.timedelta(seconds=10))
  V.prove('still flying', s.status == OK)
  V.prove('drifted with the wind', abs(s.x.m - x - u * n * 10) < .1 and
          abs(s.y.m - y - v * n * 10) < .1)
  V.prove('the clocks', s.date_time - t == s.time_elapsed ==
          n * dt.timedelta(seconds=10))

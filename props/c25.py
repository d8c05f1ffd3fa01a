"""C25 the reward."""
import math

from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import simulator_data
from props.flight import *
from pyver.spec import unit, per_case, bounded_unit

HALF = .69314718056
E = {'default': 'default', 'any': 'any'}


def state(V, solar_w=None):
  s = arbitrary_state(V)
  s.last_command = V.choice('command', COMMANDS)
  s.acs_power = units.Power(watts=V.real('acs_w', 0, 500, pts=[100, 300]))
  excess = V.choice('excess', [False, True])
  V.patch(balloon.BalloonState, 'excess_energy', property(lambda self: excess))
  return s, excess


def parameters(V, how):
  if how == 'default':
    return {}, 50.0, .4, 100.0
  r, drop, half = V.real('radius', 0, 1000), V.real(
      'dropoff', 0, 1), V.real('halflife', .1, 1000)
  return dict(station_keeping_radius_km=r, reward_dropoff=drop,
              reward_halflife=half), r, drop, half


def reward(s, kw):
  return balloon_env.perciatelli_reward_function(
      simulator_data.SimulatorState(s, None, None), **kw)


def penalty(V, s, excess):
  """The documented factor on power used while descending."""
  w = s.acs_power.watts
  scale = V.min(V.max((w - 100) / 200, 0), 1)
  if s.last_command == CMD.DOWN and not excess:
    return V.const(.95) - V.const(.3) * scale
  return V.const(1.0)


@per_case(E, con_max=400)
def shape(V, how):
  """1 within the radius, drop-off and exponential decay outside, times the
  power factor; in [0, 1]."""
  s, excess = state(V)
  kw, radius, drop, half = parameters(V, how)
  r = reward(s, kw)
  d = V.math('sqrt', s.x.m**2 + s.y.m**2) / 1000
  away = V.real('margin', 1e-6, 1e-6) if V.concrete_mode else 0
  if V.concrete_mode:
    V.assume(abs(d - radius) > away)
  k = penalty(V, s, excess)
  if V.truth(d <= radius):
    V.prove('1 within the radius (times the power factor)', V.eq(r, k))
  else:
    decay = V.math('exp', -HALF / half * (d - radius))
    V.prove('drop-off and decay outside', V.eq(r, drop * decay * k))
  V.prove('in [0, 1]', V.And(V.le(0, r), V.le(r, 1)))


@per_case(E, con_max=200)
def edge(V, how):
  """On the circle itself the balloon still counts as inside."""
  kw, radius, drop, half = parameters(V, how)
  s, excess = state(V)
  if V.concrete_mode:
    radius = float(int(radius)) or 3.0
    if how == 'any':
      kw['station_keeping_radius_km'] = radius
  s.x = units.Distance(m=radius * 1000 * V.choice('side', [1, -1]))
  s.y = units.Distance(m=0.0)
  if how == 'default' and V.concrete_mode:
    s.x = units.Distance(m=50000.0)
  V.prove('inside', V.eq(reward(s, kw), penalty(V, s, excess)))
  del drop, half


@per_case(E, con_max=300)
def halves(V, how):
  """Each half-life further out halves it; further out is never better."""
  kw, radius, drop, half = parameters(V, how)
  s, _ = state(V)
  a = V.real('first_km', 0, 3000)
  b = V.real('second_km', 0, 3000)
  V.assume(a <= b)
  kind = V.choice('question', ['half', 'monotone'])
  if kind == 'half':
    V.assume(a > radius + .001)
    b = a + half
  s.y = units.Distance(m=0.0)
  s.x = units.Distance(km=a)
  r1 = reward(s, kw)
  s.x = units.Distance(km=b)
  r2 = reward(s, kw)
  if kind == 'half' and V.concrete_mode:
    V.prove('halved', V.near(2 * r2, r1, 1e-9))
  elif kind == 'half':
    # by the contract proved in `shape` and exp(x + y) = exp(x) exp(y)
    k = penalty(V, s, _)
    e1, e2, eh = V.fresh('exp1', 'real'), V.fresh('exp2', 'real'), V.fresh(
        'exp_minus_ln2', 'real')
    V.axiom(V.And(e1 > 0, e1 <= 1, e2 == e1 * eh, V.near(eh, .5, 1e-11)))
    r1, r2 = drop * e1 * k, drop * e2 * k
    V.prove('halved', V.near(2 * r2, r1, 1e-9))
  else:
    V.prove('never increases with distance', V.le(r2, r1))


@unit(con_max=200)
def power_factor(V):
  """Only descending without excess energy costs, more the more power."""
  s, excess = state(V)
  r = reward(s, {})
  s.last_command = V.choice('other', [CMD.UP, CMD.STAY])
  free = reward(s, {})
  s.last_command = CMD.DOWN
  V.patch(balloon.BalloonState, 'excess_energy', property(lambda self: False))
  w1, w2 = V.real('less_w', 0, 500), V.real('more_w', 0, 500)
  V.assume(w1 <= w2)
  s.acs_power = units.Power(watts=w1)
  r1 = reward(s, {})
  s.acs_power = units.Power(watts=w2)
  r2 = reward(s, {})
  V.prove('more power never pays', V.le(r2, r1))
  V.prove('between the documented factors', V.And(
      V.le(V.const(.65) * free, r2), V.le(r1, V.const(.95) * free)))
  V.prove('never above the free one', V.le(r, free))
  del excess


@unit(con_max=100)
def excess_is_the_real_one(V):
  """The exemption follows the balloon's own excess-energy rule (C01)."""
  s = arbitrary_state(V)
  s.last_command = CMD.DOWN
  s.acs_power = units.Power(watts=200.0)
  s.x, s.y = units.Distance(m=3.0), units.Distance(m=4.0)
  w = V.real('solar_w', 0, 2000)
  V.patch(solar, 'solar_calculator', lambda pos, t: (30.0, 180.0, 1366.0))
  V.patch(solar, 'solar_power', lambda e, p: units.Power(watts=w))
  soc = s.battery_charge.watt_hours / s.battery_capacity.watt_hours
  excess = V.And(w > s.daytime_power_load.watts, soc > .99)
  V.prove('exempt exactly with excess energy', V.near(
      reward(s, {}), V.ite(excess, 1, V.const(.95) - V.const(.3) / 2), 1e-9))

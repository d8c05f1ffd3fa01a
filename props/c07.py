"""C07 power safety."""
from balloon_learning_environment.env.balloon import power_safety
from balloon_learning_environment.env.balloon import solar
from props.common import *
from pyver.spec import unit, per_case
import s2sphere as s2

T0 = dt.datetime(2012, 3, 4, 5, 6, 7, tzinfo=UTC)
DAY = dt.timedelta(days=1)
HYST = dt.timedelta(minutes=30)
MOD = 'balloon_learning_environment.env.balloon.power_safety'


def make(V, sunrise, sunset):
  """A layer whose next sunrise / sunset after T0 are the given times."""
  V.patch(solar, 'get_next_sunrise_sunset', lambda *a, **k: (sunrise, sunset))
  lay = power_safety.PowerSafetyLayer(
      s2.LatLng.from_degrees(1.0, 2.0), T0)
  V.prove('fresh layer is not paused', not lay.navigation_is_paused)
  return lay


def loop_contracts(V, lay):
  """`while t > x: x += 1 day` for the two tracked events."""
  for i, attr in enumerate(('_sunrise_with_hysteresis', '_sunset')):

    def inv(V, e, attr=attr):
      if 'start' not in e.entry:
        e.entry['start'], e.entry['now'] = getattr(lay, attr), V.ghost['now']
        e.entry['k'] = 0
      if e.phase == 'assume':
        e.entry['k'] = V.fresh('days', 'int')
      x, x0, k, t = (getattr(lay, attr), e.entry['start'], e.entry['k'],
                     e.entry['now'])
      if e.phase == 'preserved':
        k = k + 1                        # witness for "whole days"
      return [('a whole number of days was added', V.And(
          V.eq(x, x0 + k * DAY), k >= 0)),
              ('never a day too far', V.Or(V.eq(x, x0), x - DAY < t))]

    def havoc(V, e, attr=attr):
      setattr(lay, attr, V.fresh_like(attr, getattr(lay, attr)))

    def variant(V, e, attr=attr):
      return V.exact_secs(V.ghost['now'] - getattr(lay, attr))
    V.loop(f'{MOD}:PowerSafetyLayer.get_action', i, inv, havoc,
           variant=variant)


def first_at_or_after(V, x, t):
  """The first of x, x + 1 day, x + 2 days, ... that is not before t."""
  d = V.exact_secs(t - x)
  if not V.truth(d > 0):
    return x
  k = -V.floor(-(d / 86400))
  return x + k * DAY


def spec(V, paused, action, t, sunrise, sunset, load, charge, cap):
  """-> (effective command, paused afterwards)."""
  sr = first_at_or_after(V, sunrise + HYST, t)
  ss = first_at_or_after(V, sunset, t)
  blocked = CMD.STAY if action == CMD.DOWN else action
  if V.truth(ss < sr):                                  # day
    if paused:
      V.away(charge / cap, .05)
      if V.truth(charge / cap < .05):
        return blocked, True
    return action, False
  if paused:
    return blocked, True
  left = (charge - load * (V.exact_secs(sr - t) / 3600 if not V.concrete_mode
                           else float(V.exact_secs(sr - t)) / 3600)) / cap
  V.away(left, .025)
  if V.truth(left < .025):
    return blocked, True
  return action, False


def inputs(V):
  sunrise = T0 + V.delta('sunrise_in_s', 1, 86400, pts=[3600])
  sunset = T0 + V.delta('sunset_in_s', 1, 86400, pts=[50000])
  load = V.real('load_w', 0, 500, pts=[183.7])
  cap = V.real('capacity_wh', 100, 10000, pts=[3058.56])
  soc = V.real('soc', 0, 1, pts=[.05, .025])
  return sunrise, sunset, load, cap, soc * cap


def call(V, lay, act, t, load, charge, cap):
  V.ghost['now'] = t
  return lay.get_action(act, t, units.Power(watts=load),
                        units.Energy(watt_hours=charge),
                        units.Energy(watt_hours=cap))


@unit(con_max=600, feas_timeout=100)
def decision_at_any_time(V):
  """A fresh layer asked at any later time, with either paused flag."""
  sunrise, sunset, load, cap, charge = inputs(V)
  lay = make(V, sunrise, sunset)
  loop_contracts(V, lay)
  t = T0 + V.delta('t_s', 0, 30 * 86400, pts=[3600 + 1800, 50000, 86400])
  paused = V.choice('paused', [False, True])
  lay.navigation_is_paused = paused
  act = V.choice('action', COMMANDS)
  out = call(V, lay, act, t, load, charge, cap)
  want, p2 = spec(V, paused, act, t, sunrise, sunset, load, charge, cap)
  V.prove('effective command', out == want)
  V.prove('paused flag', V.Iff(lay.navigation_is_paused, p2))


@unit(con_max=600, feas_timeout=100)
def decision_after_any_earlier_call(V):
  """Induction step: an earlier call at any earlier time changes nothing."""
  sunrise, sunset, load, cap, charge = inputs(V)
  lay = make(V, sunrise, sunset)
  loop_contracts(V, lay)
  t1 = V.delta('t1_s', 0, 30 * 86400)
  gap = V.delta('gap_s', 0, 30 * 86400, pts=[86400, 43200])
  call(V, lay, V.choice('first_action', [CMD.STAY, CMD.DOWN]), T0 + t1, 0.0,
       3000.0, 3000.0)
  paused = V.choice('paused', [False, True])
  lay.navigation_is_paused = paused
  t = T0 + t1 + gap
  out = call(V, lay, CMD.DOWN, t, load, charge, cap)
  want, p2 = spec(V, paused, CMD.DOWN, t, sunrise, sunset, load, charge, cap)
  V.prove('effective command', out == want)
  V.prove('paused flag', V.Iff(lay.navigation_is_paused, p2))


@unit(con_max=100)
def paused_action(V):
  """Only descents are replaced while paused."""
  act = V.choice('action', COMMANDS)
  out = V.call(power_safety.PowerSafetyLayer.get_paused_action, act)
  V.prove('paused action', out == (CMD.STAY if act == CMD.DOWN else act))


# hours after T0; the sun is up from 3:00 (3:30 for the layer) to 14:00
HISTORIES = {'night': (15, 16, 20), 'into the day': (1, 3.6, 4),
             'through the day': (2, 5, 15), 'days apart': (1, 30, 50),
             'morning': (3.4, 3.5, 3.6), 'evening': (13.9, 14, 14.1),
             'the same moment': (2, 2, 2), 'a day later': (1, 25, 49)}


@per_case(HISTORIES, con_max=120)
def history_of_three(V, hours):
  """Three decisions of one layer, any charges and loads: each follows the
  rule from the flag the last one left, and from nothing else."""
  at = lambda h: T0 + dt.timedelta(hours=h)
  sunrise, sunset = at(3), at(14)
  lay = make(V, sunrise, sunset)
  paused = False
  for i, h in enumerate(hours):
    load = V.real(f'load{i}', 0, 500, pts=[183.7])
    cap = V.real(f'capacity{i}', 100, 10000, pts=[3058.56])
    charge = cap * V.real(f'soc{i}', 0, 1, pts=[.05, .025, 0])
    act = V.choice(f'action{i}', COMMANDS) if i == 2 else CMD.DOWN
    out = lay.get_action(act, at(h), units.Power(watts=load),
                         units.Energy(watt_hours=charge),
                         units.Energy(watt_hours=cap))
    want, paused = spec(V, paused, act, at(h), sunrise, sunset, load, charge,
                        cap)
    V.prove('effective command', out == want)
    V.prove('paused flag', V.Iff(lay.navigation_is_paused, paused))

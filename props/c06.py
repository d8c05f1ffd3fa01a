"""C06 envelope safety."""
from balloon_learning_environment.env.balloon import envelope_safety
from props.common import *
from pyver.spec import unit

STATES = ['NOMINAL', 'LOW_CRITICAL', 'LOW', 'HIGH', 'HIGH_CRITICAL']


def drive(m):
  return {'NOMINAL': m / 2, 'LOW_CRITICAL': 100.0, 'LOW': 200.0,
          'HIGH': m - 200, 'HIGH_CRITICAL': m + 10}


def spec_next(V, s, sp, m):
  if V.truth(sp < 150):
    return 'LOW_CRITICAL'
  if V.truth(sp < 250):
    return 'LOW'
  if V.truth(sp < 300):
    return 'LOW' if s in ('LOW', 'LOW_CRITICAL') else 'NOMINAL'
  if V.truth(sp < m - 300):
    return 'NOMINAL'
  if V.truth(sp < m - 250):
    return 'HIGH' if s in ('HIGH', 'HIGH_CRITICAL') else 'NOMINAL'
  if V.truth(sp < m - 150):
    return 'HIGH'
  return 'HIGH_CRITICAL'


def expected(s, action):
  if s in ('LOW_CRITICAL', 'HIGH_CRITICAL'):
    return CMD.UP
  if s in ('LOW', 'HIGH') and action == CMD.DOWN:
    return CMD.STAY
  return action


def pts(m0=2380.0):
  return [150, 250, 300, m0 - 300, m0 - 250, m0 - 150, 0.0]


@unit(con_max=500)
def step_from_every_state(V):
  """From each abstract state: action, paused flag and successor state."""
  m = V.real('max_superpressure', 700, 5000, pts=[2380])
  s = V.choice('state', STATES)
  lay = envelope_safety.EnvelopeSafetyLayer(m)
  V.prove('fresh layer is not paused', not lay.navigation_is_paused)
  lay.get_action(CMD.STAY, drive(m)[s])
  V.prove('driving reaches the state',
          lay.navigation_is_paused == (s != 'NOMINAL'))
  act = V.choice('action', COMMANDS)
  if V.concrete_mode:
    k = V.choice('k', [0, 150, 250, 300, m - 300, m - 250, m - 150])
    sp = k + V.real('offset', -3000, 3000, pts=[0, 0, 0, 1e-6, -1e-6, 10, -10])
    if 'superpressure' in V.forced:
      sp = V.real('superpressure')
  else:
    sp = V.real('superpressure')
  out = lay.get_action(act, sp)
  s2 = spec_next(V, s, sp, m)
  V.prove('effective command', out == expected(s2, act))
  V.prove('paused flag', lay.navigation_is_paused == (s2 != 'NOMINAL'))
  V.prove('never descends unless asked', out != CMD.DOWN or act == CMD.DOWN)
  ref = envelope_safety.EnvelopeSafetyLayer(m)
  ref.get_action(CMD.STAY, drive(m)[s2])
  V.soft('successor state is canonical', fingerprint(lay) == fingerprint(ref))


@unit(con_max=500)
def history_of_two_then_any(V):
  """Two arbitrary superpressures after a fresh start."""
  m = V.real('max_superpressure', 700, 5000, pts=[2380])
  lay = envelope_safety.EnvelopeSafetyLayer(m)
  s = 'NOMINAL'
  for i in range(2):
    sp = V.real(f'sp{i}', -1000, 7000, pts=pts())
    act = V.choice('action', COMMANDS) if i else CMD.DOWN
    out = lay.get_action(act, sp)
    s = spec_next(V, s, sp, m)
    V.prove('effective command', out == expected(s, act))
    V.prove('paused flag', lay.navigation_is_paused == (s != 'NOMINAL'))

"""C05 altitude safety."""
from balloon_learning_environment.env.balloon import altitude_safety
from props.common import *
from pyver.spec import unit

FT = 0.3048
# canonical altitudes that drive a fresh layer into each spec state
DRIVE = {'NOMINAL': 60000 * FT, 'LOW': 50250 * FT, 'VERY_LOW': 40000 * FT}


def spec_next(V, s, alt):
  ft = alt / FT
  if V.truth(ft < 50000):
    return 'VERY_LOW'
  if V.truth(ft < 50500):
    return 'LOW'
  if V.truth(ft < 51000):
    return 'NOMINAL' if s == 'NOMINAL' else 'LOW'
  return 'NOMINAL'


def expected(s, action):
  if s == 'VERY_LOW':
    return CMD.UP
  if s == 'LOW' and action == CMD.DOWN:
    return CMD.STAY
  return action


PTS = [50000 * FT, 50500 * FT, 51000 * FT]


def layer_in(V, s, atm, cell):
  lay = altitude_safety.AltitudeSafetyLayer()
  cell[0] = DRIVE[s]
  lay.get_action(CMD.STAY, atm, 6000.0)
  return lay


@unit(con_max=400)
def step_from_every_state(V):
  """From each abstract state: action, paused flag and successor state."""
  cell = [0.0]
  atm = stub_atmosphere(V, lambda p: cell[0])
  s = V.choice('state', list(DRIVE))
  lay = layer_in(V, s, atm, cell)
  V.prove('driving reaches the state',
          lay.navigation_is_paused == (s != 'NOMINAL'))
  act = V.choice('action', COMMANDS)
  alt = V.real('altitude_m', 10000, 25000, pts=PTS)
  cell[0] = alt
  out = lay.get_action(act, atm, 6000.0)
  s2 = spec_next(V, s, alt)
  V.prove('effective command', out == expected(s2, act))
  V.prove('paused flag', lay.navigation_is_paused == (s2 != 'NOMINAL'))
  ref = layer_in(V, s2, atm, cell)
  V.soft('successor state is canonical', fingerprint(lay) == fingerprint(ref))


@unit(con_max=400)
def history_of_three(V):
  """Any three consecutive altitudes from a fresh layer (any last command)."""
  cell = [0.0]
  atm = stub_atmosphere(V, lambda p: cell[0])
  lay = altitude_safety.AltitudeSafetyLayer()
  V.prove('fresh layer is not paused', not lay.navigation_is_paused)
  s = 'NOMINAL'
  for i in range(3):
    alt = V.real(f'alt{i}', 10000, 25000, pts=PTS)
    cell[0] = alt
    act = V.choice('action', COMMANDS) if i == 2 else CMD.DOWN
    out = lay.get_action(act, atm, 6000.0)
    s = spec_next(V, s, alt)
    V.prove('effective command', out == expected(s, act))
    V.prove('paused flag', lay.navigation_is_paused == (s != 'NOMINAL'))
    V.prove('never descends unless asked',
            out != CMD.DOWN or act == CMD.DOWN)

"""Helpers shared by the specifications."""
import datetime as dt
import enum

from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units
import numpy as np

CMD = control.AltitudeControlCommand
COMMANDS = [CMD.DOWN, CMD.STAY, CMD.UP]
UTC = dt.timezone.utc

_ATM = []


def real_atmosphere(seed=0):
  """An Atmosphere of the repository (built natively, concrete)."""
  import jax
  if not _ATM:
    from pyver import runtime
    s, runtime.SESSION = runtime.SESSION, None
    try:
      _ATM.append(standard_atmosphere.Atmosphere(jax.random.PRNGKey(seed)))
    finally:
      runtime.SESSION = s
  return _ATM[0]


def stub_atmosphere(V, height_of, temperature_of=None):
  """A real Atmosphere whose at_pressure reports height_of(pressure)."""
  atm = real_atmosphere()

  def at_pressure(self, pressure):
    t = temperature_of(pressure) if temperature_of else 210.0
    return standard_atmosphere.AtmosphericValues(
        units.Distance(m=height_of(pressure)), t, pressure, 0.1)
  V.patch(standard_atmosphere.Atmosphere, 'at_pressure', at_pressure)
  return atm


def fingerprint(o, depth=3):
  """The discrete state of an object, whatever its representation."""
  out = []
  for k, x in sorted(getattr(o, '__dict__', {}).items()):
    if isinstance(x, enum.Enum):
      out.append((k, x.name))
    elif isinstance(x, (bool, str)) or x is None:
      out.append((k, x))
    elif depth and hasattr(x, '__dict__') and not isinstance(x, type) and (
        not callable(x)):
      out.append((k, fingerprint(x, depth - 1)))
  return tuple(out)


def free_flags():
  """Lets another program of the repository define flags of the same names."""
  from absl import flags
  for mod, fs in flags.FLAGS.flags_by_module_dict().items():
    if mod.startswith('balloon_learning_environment'):
      for f in list(fs):
        if f.name in flags.FLAGS:
          delattr(flags.FLAGS, f.name)


def asked_before(V, f, q, other, symbolic=True):
  """Asks f for a neighbour of q first: an answer must not depend on that.

  The neighbour is `other` in one component (any one) or in all of them."""
  if V.symbolic and not symbolic:
    return
  k = V.choice('asked before with another', [*range(len(q)), None])
  V.run(f, *(other if k is None else
             [other[i] if i == k else x for i, x in enumerate(q)]))

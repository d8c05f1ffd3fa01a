"""C10 atmosphere."""
from props.common import *
from pyver.spec import unit, per_case
from balloon_learning_environment.utils import constants
import jax

RS = 8.3144621 / 0.028964922481160      # gas constant of dry air
H = [-610.0, 17000.0, 21000.0, 32000.0, 47000.0, 51000.0, 71000.0, 85000.0]

LAYERS = {f'layer{i}': i for i in range(7)}

def atmosphere(V):
  """Any sampled atmosphere."""
  V.exactify(constants)
  alpha = V.real('alpha', 0, 1)
  V.patch(jax.random, 'uniform', lambda *a, **k: np.float64(alpha)
          if V.concrete_mode else alpha)
  return V.call(standard_atmosphere.Atmosphere, jax.random.PRNGKey(0)
                if V.concrete_mode else 'key')

def height(V, i, name='h'):
  return V.real(name, H[i], H[i + 1], hi_open=True)

@per_case(LAYERS, powers=True)
def height_and_back(V, i):
  """Height -> pressure -> height, in one layer."""
  atm = atmosphere(V)
  h = height(V, i)
  a = atm.at_height(units.Distance(m=h))
  V.prove('height is the one asked for', V.eq(a.height.meters, h))
  V.prove('temperature is positive', a.temperature > 0)
  V.prove('pressure is positive', a.pressure > 0)
  V.prove('ideal gas law', V.eq(
      a.density * V.const(RS) * a.temperature, a.pressure))
  b = atm.at_pressure(a.pressure)
  V.prove('pressure is the one asked for', V.eq(b.pressure, a.pressure))
  V.prove('same height', V.eq(b.height.meters, h, 1e-6))
  V.prove('same temperature', V.eq(b.temperature, a.temperature, 1e-6))
  V.prove('same density', V.eq(b.density, a.density, 1e-6))


PAIRS = {f'layers{i}to{j}': (i, j) for i in range(7) for j in range(i, 7)}


@per_case(LAYERS, powers=True)
def pressure_and_back(V, i):
  """Pressure -> height -> pressure, for pressures of one layer."""
  atm = atmosphere(V)
  hi = atm.at_height(units.Distance(m=H[i])).pressure
  lo = atm.at_height(units.Distance(m=H[i + 1] if i < 6 else 84999)).pressure
  f = V.real('fraction', 0, 1, lo_open=True)
  p = V.real('p', 0, 110000) if V.symbolic else lo + f * (hi - lo)
  V.assume(V.And(p > lo, p <= hi))
  a = atm.at_pressure(p)
  V.prove('pressure is the one asked for', V.eq(a.pressure, p))
  V.prove('height of that layer', V.And(
      V.le(H[i], a.height.meters), V.lt(a.height.meters, H[i + 1])))
  V.prove('temperature is positive', a.temperature > 0)
  V.prove('ideal gas law', V.eq(
      a.density * V.const(RS) * a.temperature, p))
  V.assume(a.height.meters >= H[0])           # rounding at the very bottom
  b = atm.at_height(a.height)
  V.prove('same pressure', V.eq(b.pressure, p, 1e-6))
  V.prove('same temperature', V.eq(b.temperature, a.temperature, 1e-6))
  V.prove('same density', V.eq(b.density, a.density, 1e-6))


@per_case(PAIRS, powers=True)
def order(V, ij):
  """Pressure strictly falls with height; temperature has no jumps."""
  i, j = ij
  atm = atmosphere(V)
  h1, h2 = height(V, i, 'h1'), height(V, j, 'h2')
  V.assume(h2 - h1 > (1e-3 if V.concrete_mode else 0))
  a, b = (atm.at_height(units.Distance(m=h)) for h in (h1, h2))
  V.prove('pressure strictly falls', a.pressure > b.pressure)
  d = b.temperature - a.temperature
  lim = V.const(.0071) * (h2 - h1)
  V.prove('temperature changes at most 7.1 K per km', V.And(
      V.le(-lim, d), V.le(d, lim)))


@unit(powers=True)
def refusals(V):
  """Heights and pressures outside the supported range are refused."""
  atm = atmosphere(V)
  top = atm.at_height(units.Distance(m=H[0])).pressure
  d = V.real('outside', 0, 1e6, pts=[1, 1e-3])
  for name, f, x, bad in (
      ('below', atm.at_height, units.Distance(m=H[0] - d), d > 0),
      ('above', atm.at_height, units.Distance(m=H[-1] + d), True),
      ('dense', atm.at_pressure, top + d, d > 0),
      ('vacuum', atm.at_pressure, -d, True)):
    kind, _ = V.run(f, x)
    V.prove(f'{name} the range is refused', V.Implies(bad, kind == 'raise'))


@unit(con_max=20, con_budget=30)
def key_decides(V):
  """The mixture is drawn from the given key, anew on every reset."""
  seen = []

  def draw(key, *a, **k):
    seen.append(key)
    return np.float64(.25 * len(seen))
  V.patch(jax.random, 'uniform', draw)
  atm = V.call(standard_atmosphere.Atmosphere, 'first')
  t1 = atm.at_height(units.Distance(m=20000.0)).temperature
  atm.reset('second')
  t2 = atm.at_height(units.Distance(m=20000.0)).temperature
  V.prove('one draw per reset, with the given key', seen == ['first', 'second'])
  V.prove('a reset replaces the old mixture', V.Not(V.eq(t1, t2)))


LAPSE = [(-.007, -.0058), (.005, .006), (.001, .001), (.0028, .0028), (0, 0),
         (-.0028, -.0028), (-.002, -.002)]     # K/m, documented extremes


@per_case(LAYERS, powers=True)
def lapse_rates(V, i):
  """Temperature is linear in a layer, between the two documented mixtures."""
  atm = atmosphere(V)
  t = [atm.at_height(units.Distance(m=x)).temperature
       for x in (H[0], H[i], H[i] + 1000)]
  h = height(V, i)
  t3 = atm.at_height(units.Distance(m=h)).temperature
  rate = (t[2] - t[1]) / 1000
  V.prove('base temperature', V.eq(t[0], 300))
  V.prove('linear', V.eq(t3, t[1] + rate * (h - V.const(H[i]))))
  V.prove('between the extremes', V.And(
      V.le(V.const(LAPSE[i][0]), rate), V.le(rate, V.const(LAPSE[i][1]))))


def same_air(V, a, b):
  return V.And(*[V.exactly(x, y) for x, y in zip(
      (a.height.meters, a.temperature, a.pressure, a.density),
      (b.height.meters, b.temperature, b.pressure, b.density))])


QUESTIONS = [*[('at_height', units.Distance(m=x)) for x in (
    -500.0, 16500.0, 21500.0, 40000.0, 49000.0, 60000.0, 80000.0)],
             *[('at_pressure', x) for x in (
                 60000.0, 9000.0, 4000.0, 300.0, 80.0, 30.0, 2.0)]]


@per_case({'again': False, 'reset': True}, con_max=60)
def what_was_asked_before(V, reset):
  """A lookup does not depend on earlier lookups, or on earlier mixtures."""
  mix = {'old': np.float64(.25), 'new': np.float64(.75)}
  V.patch(jax.random, 'uniform', lambda key, *a, **k: mix[key])
  atm = standard_atmosphere.Atmosphere('old')
  before, x = V.choice('asked before', QUESTIONS)
  getattr(atm, before)(x)
  if reset:
    atm.reset('new')
  fresh = standard_atmosphere.Atmosphere('new' if reset else 'old')
  asked, y = V.choice('asked', QUESTIONS)
  V.prove('same air as if asked first', same_air(
      V, getattr(atm, asked)(y), getattr(fresh, asked)(y)))

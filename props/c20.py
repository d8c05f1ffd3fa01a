"""C20 simplex wind noise."""
import math

from balloon_learning_environment.env import simplex_wind_noise as swn
from props.common import *
from pyver.spec import unit, per_case, bounded_unit
import jax
import opensimplex

# weight, x [km], y [km], pressure [Pa], time [h]  (the published table)
TABLE = {
    'u': ((0.1445, 702.269, 2116.987, 2587.802, 245.0),
          (0.2766, 1483.570, 752.124, 646.208, 16.39),
          (0.2627, 276.810, 147.040, 587.702, 3.836),
          (0.2137, 10214.525, 1512.216, 965.629, 41.780),
          (0.1025, 181.286, 420.942, 8500.0, 245.0)),
    'v': ((0.2716, 1974.228, 2028.814, 713.697, 26.435),
          (0.2684, 699.738, 541.845, 632.116, 9.530),
          (0.2348, 217.750, 196.522, 686.825, 3.546),
          (0.1186, 47.500, 43.048, 66.553, 8.424),
          (0.1066, 3663.291, 232.023, 7499.741, 225.0))}
# raw OpenSimplex variance and the target variance of the wind noise
RAW, TARGET = 0.0569, 1.02


def seed_of(V, key):
  seed = V.fun('seed', key, lo=0)
  V.axiom(V.whole(seed))
  return seed if not V.concrete_mode else int(seed)


def stub_randomness(V, log):
  """Random draws and the noise function are functions of their arguments."""
  keys = {}

  def split(key, num=2):
    return [keys.setdefault((key, i), 1000.0 * key + i + 1)
            for i in range(num)]

  def choice(key, a, *args, **kw):
    V.prove('a large seed space', a >= 10**6)
    return seed_of(V, key)

  def uniform(key, shape=(), dtype=None, minval=0., maxval=1.):
    V.prove('the unit interval', minval == 0 and maxval == 1)
    out = np.empty(shape, dtype=object)
    for i in range(shape[0]):
      out[i] = V.fun('shift', key, float(i), lo=0, hi=1)
    return out

  class Simplex:

    def __init__(self, seed=3):
      self.seed = seed

    def noise4d(self, x, y, z, w):
      log.append((self.seed, x, y, z, w))
      return V.fun('simplex', self.seed, x, y, z, w, lo=-1, hi=1)

    noise4 = noise4d
  V.patch(jax.random, 'split', split)
  V.patch(jax.random, 'choice', choice)
  V.patch(jax.random, 'uniform', uniform)
  V.patch(opensimplex, 'OpenSimplex', Simplex)
  if not V.concrete_mode:
    V.patch(swn.np, 'asarray', lambda x: x)


def point(V, i=0):
  return (units.Distance(km=V.real('x', -5000, 5000)),
          units.Distance(km=V.real('y', -5000, 5000)),
          V.real('pressure', 1000, 101325), V.delta('elapsed', 0, 1e7))


ORIGIN = (units.Distance(m=0.0), units.Distance(m=0.0), 0.0, dt.timedelta())


@per_case({'u': 'u', 'v': 'v'}, con_max=60)
def harmonic_sum(V, which):
  """The variance-corrected weighted sum of five shifted simplex harmonics."""
  log = []
  stub_randomness(V, log)
  if V.choice('the other component first', [True, False]):
    other = swn.NoisyWindComponent({'u': 'v', 'v': 'u'}[which])
    other.reset(3.0)
    other.get_noise(*ORIGIN)
    del log[:]
  c = swn.NoisyWindComponent(which)
  key = 7.0
  c.reset(key)
  c.get_noise(*ORIGIN)
  V.prove('five harmonics', len(log) == 5)
  base = list(log)
  V.prove('own generator per harmonic', V.And(*[
      V.eq(b[0], seed_of(V, 1000.0 * key + i + 1))
      for i, b in enumerate(base)]))
  for b in base:
    for o in b[1:]:
      V.prove('shifts lie in [-1, 1]', V.And(V.le(-1, o), V.le(o, 1)))
  q = point(V)
  asked_before(V, c.get_noise, q, point(V))
  del log[:]
  r = c.get_noise(*q)
  x, y, p = q[0].km, q[1].km, q[2]
  hours = V.secs(q[3]) / 3600
  total = sum(h[0] for h in TABLE[which])
  square = sum(h[0]**2 for h in TABLE[which])
  want = 0
  for h, b in zip(TABLE[which], base):
    n = V.fun('simplex', b[0], x / h[1] + b[1], y / h[2] + b[2],
              p / h[3] + b[3], hours / h[4] + b[4], lo=-1, hi=1)
    want = want + h[0] * n
  scale = math.sqrt(TARGET / RAW) / total * math.sqrt(total / square)
  V.prove('weighted sum', V.near(r, want * scale, 1e-6))
  del log[:]
  V.prove('a function of seed and query only',
          V.near(c.get_noise(*q), r, 1e-9))


@unit()
def unit_scale(V):
  """Lemma: with independent harmonics of the raw simplex variance the sum has
  variance 1.02 / (sum of the weights), 1.02 within 1%."""
  for which, table in TABLE.items():
    w = [V.const(h[0]) for h in table]
    total, square = sum(w), sum(x * x for x in w)
    c2 = [x * x / (total * total) * total / square * TARGET / RAW for x in w]
    var = sum(x * RAW for x in c2)
    V.prove('unit variance ' + which, V.near(var, TARGET, TARGET * .01))


@per_case({'u': 'u', 'v': 'v'}, con_max=60)
def reseeding(V, which):
  """A reset replaces everything: afterwards the noise is that of a fresh
  component reset with the same key."""
  log = []
  stub_randomness(V, log)
  c, d = swn.NoisyWindComponent(which), swn.NoisyWindComponent(which)
  c.reset(7.0)
  q = point(V)
  old = c.get_noise(*q)
  c.reset(9.0)
  d.reset(9.0)
  a, b = c.get_noise(*q), d.get_noise(*q)
  V.prove('depends on the last key only', V.near(a, b, 1e-9))
  n = len(log) // 3
  V.prove('other seeds than before', all(
      x[0] is not y[0] for x, y in zip(log[:n], log[n:2 * n])))
  c.reset(7.0)
  V.prove('the same key gives the same noise', V.near(c.get_noise(*q), old,
                                                      1e-9))


@unit(con_max=30)
def not_before_reset(V):
  """No noise before a reset; components other than u and v are refused."""
  q = point(V)
  for which in ('u', 'v'):
    kind, e = V.run(swn.NoisyWindComponent(which).get_noise, *q)
    V.prove('refused before reset', kind == 'raise' and
            isinstance(e, ValueError))
  for which in ('w', '', 'U', None):
    kind, e = V.run(swn.NoisyWindComponent, which)
    V.prove('unknown component', kind == 'raise' and
            isinstance(e, RuntimeError))


@bounded_unit('200 real seeds and points', con_n=60, con_budget=40)
def real_noise(V):
  """On the real generator: deterministic, different seeds and components
  differ, close points have close noise, magnitudes are plausible."""
  k = int(V.real('key', 0, 1e6))
  c = {}
  for w in 'uv':
    c[w] = swn.NoisyWindComponent(w)
    c[w].reset(jax.random.PRNGKey(k))
  q = point(V)
  a = {w: c[w].get_noise(*q) for w in 'uv'}
  d = swn.NoisyWindComponent('u')
  d.reset(jax.random.PRNGKey(k))
  V.prove('same seed, same noise', d.get_noise(*q) == a['u'])
  d.reset(jax.random.PRNGKey(k + 1))
  V.prove('another seed, another noise', d.get_noise(*q) != a['u'])
  V.prove('independent components', a['u'] != a['v'])
  near = (q[0] + units.Distance(m=10.0), q[1] - units.Distance(m=10.0),
          q[2] + .01, q[3] + dt.timedelta(seconds=1))
  for w in 'uv':
    V.prove('smooth', abs(c[w].get_noise(*near) - a[w]) < .05)
    V.prove('plausible', abs(a[w]) < 8)

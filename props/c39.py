"""C39 wind speeds and station keeping winds."""
import scipy.spatial

from balloon_learning_environment.utils import wind
from props.networks_stub import *
from pyver.spec import unit, per_case, bounded_unit


def field(V, shape):
  n = int(np.prod(shape)) * 2
  return V.array('wind', n, -100, 100).reshape(shape + (2,))


@per_case({'line': (1, 1, 3, 1), 'box': (2, 1, 1, 2), 'point': (1, 1, 1, 1)},
          con_max=20)
def speeds(V, shape):
  """The speed at each grid point is the length of its wind, the mean speed
  their mean."""
  V.patch(wind, 'jnp', Numbers(V))
  f = field(V, shape)
  s = raw(wind.wind_field_speeds)(f)
  V.prove('at the same grid points', s.shape == shape)
  for i in np.ndindex(shape):
    V.prove('not negative', V.le(0.0, s[i]))
    V.prove('the length of the wind', V.eq(
        s[i] * s[i], f[i + (0,)] * f[i + (0,)] + f[i + (1,)] * f[i + (1,)]))
  V.patch(wind, 'wind_field_speeds', raw(wind.wind_field_speeds))
  m = raw(wind.mean_speed_in_wind_field)(f)
  V.prove('mean', V.eq(m * s.size, sum(s.reshape(-1), 0.0)))


@bounded_unit('the installed jax, random fields of up to 4 x 4 x 4 x 4 points',
              con_n=10, con_budget=30)
def computed(V):
  """With the real library."""
  shape = tuple(int(V.int(f'n{i}', 1, 4)) for i in range(4))
  rng = np.random.RandomState(int(V.int('seed', 0, 1000)))
  f = rng.uniform(-50, 50, shape + (2,)).astype(np.float32)
  f[rng.uniform(size=shape) < .2] = 0
  s = np.asarray(wind.wind_field_speeds(f))
  V.prove('speeds', s.shape == shape and np.allclose(
      s, np.hypot(f[..., 0], f[..., 1]), rtol=1e-4, atol=1e-4))
  V.prove('mean', np.isclose(float(wind.mean_speed_in_wind_field(f)),
                             s.mean(), rtol=1e-4, atol=1e-4))


def inside(points):
  """Strictly inside (True), strictly outside (False) or near the edge of the
  convex hull of the points: do the directions leave a gap of half a turn?"""
  at = sorted(float(np.arctan2(y, x)) for x, y in points)
  gaps = [b - a for a, b in zip(at, at[1:] + [at[0] + 2 * np.pi])]
  if abs(max(gaps) - np.pi) < 1e-3 or min(np.hypot(*p) for p in points) < 1e-3:
    return None
  return max(gaps) < np.pi


@unit(con_max=60)
def around(V):
  """Station keeping winds: calm lies in the convex hull of the column (by the
  contracts of the two hull routines)."""
  n = V.choice('levels', [3, 4, 6])
  column = np.arange(2 * n).reshape(n, 2) * 1.0 + 1
  rows = [tuple(r) for r in column]
  kept = V.choice('corners', [[0, 1, 2], [2, 0, 1], list(range(n))])
  calm_inside = V.choice('calm inside', [True, False])
  asked = []

  def points(x):
    return [tuple(map(float, r)) for r in np.asarray(x)]

  class Hull:

    def __init__(self, x, *a, **k):
      V.prove('hull of the column', points(x) == rows)
      self.points = np.asarray(x)
      self.vertices = np.array(kept)

  class Triangles:
    """Its hull is the column's if it is given its corners."""

    def __init__(self, x, *a, **k):
      V.prove('corners of the column', set(points(x)) <= set(rows) and
              {rows[i] for i in kept} <= set(points(x)))

    def find_simplex(self, x, *a, **k):
      x = np.asarray(x)
      asked.append(x.shape)
      V.prove('where calm is', x.shape in ((2,), (1, 2)) and not x.any())
      k = V.choice('triangle', [0, 5]) if calm_inside else -1
      return np.array(k) if x.ndim == 1 else np.array([k])
  V.patch(scipy.spatial, 'ConvexHull', Hull)
  V.patch(scipy.spatial, 'Delaunay', Triangles)
  out = wind.is_station_keeping_winds(column)
  V.prove('exactly when calm is in the hull', bool(out) == calm_inside)
  V.prove('decided', len(asked) == 1)


@bounded_unit('the installed scipy; random columns of 3 to 12 winds whose hull '
              'does not pass within 0.06 degrees of calm', con_n=200,
              con_budget=40)
def column(V):
  """With the real library, against the gaps between wind directions."""
  n = int(V.int('levels', 3, 12))
  rng = np.random.RandomState(int(V.int('seed', 0, 100000)))
  kind = V.choice('kind', ['all round', 'one way', 'half'])
  turn = {'all round': 2 * np.pi, 'one way': 1.0, 'half': 3.3}[kind]
  a = rng.uniform(0, turn, n) + rng.uniform(0, 6.3)
  r = rng.uniform(.5, 40, n)
  column = np.stack([r * np.cos(a), r * np.sin(a)], axis=1)
  want = inside(column)
  V.assume(want is not None)
  before = column.copy()
  V.prove('station keeping', bool(wind.is_station_keeping_winds(column)) ==
          want)
  V.prove('column untouched', np.array_equal(before, column))
  V.prove('whatever the order', bool(wind.is_station_keeping_winds(
      column[rng.permutation(n)])) == want)
  V.prove('whatever the speed', bool(wind.is_station_keeping_winds(
      column * rng.uniform(.1, 10))) == want)

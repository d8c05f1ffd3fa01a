"""C19 gridded forecasts."""
from balloon_learning_environment.env import generative_wind_field as gen
from balloon_learning_environment.env import grid_based_wind_field as grid
from balloon_learning_environment.env import grid_wind_field_sampler
from balloon_learning_environment.generative import vae
from balloon_learning_environment.models import models
from props.common import *
from pyver.spec import unit, per_case, bounded_unit
import functools
import flax
import jax
import scipy.interpolate

T0 = dt.datetime(2012, 3, 4, 5, 6, 7, tzinfo=UTC)
KINDS = {'grid': 'grid', 'generative': 'generative'}
SHAPE = vae.FieldShape()


class Sampler(grid_wind_field_sampler.GridWindFieldSampler):

  def __init__(self, field):
    self.field, self.asked = field, []

  @property
  def field_shape(self):
    return vae.FieldShape()

  def sample_field(self, key, date_time):
    self.asked.append((key, date_time))
    return self.field


def build(V, kind, field):
  """A field of either class whose forecast grid is `field`."""
  if kind == 'grid':
    return grid.GridBasedWindField(Sampler(field))
  stub_model(V, field)
  return gen.GenerativeWindField()


def stub_model(V, field):
  """Contract of the generative model: weights, 64 standard normal numbers
  drawn with the key -> a field."""
  keys, weights = [], {'params': 'published'}
  V.patch(models, 'load_offlineskies22', lambda: b'serialized')

  def restore(b):
    V.prove('the published weights', b == b'serialized')
    return weights

  def normal(key, shape=(), dtype=float):
    keys.append(key)
    return np.arange(float(np.prod(shape))).reshape(shape)
  V.patch(flax.serialization, 'msgpack_restore', restore)
  V.patch(jax.random, 'normal', normal)

  class Decoder:

    def apply(self, params, latents, *a, **k):
      V.prove('the restored weights', params is weights)
      V.prove('64 standard normal numbers', np.shape(latents) == (64,) and
              np.array_equal(latents, np.arange(64.)))
      return field
  V.patch(vae, 'Decoder', Decoder)
  return keys


def inside(V, p):
  lo = (-500, -500, 5000, 0)
  hi = (500, 500, 14000, 48)
  return V.And(*[V.And(V.le(a, x), V.le(x, b)) for a, x, b in zip(lo, p, hi)])


def stub_interpolation(V, field, seen):
  """Contract of scipy's interpn: points must lie in the grid; the value is a
  function of grid, values and point."""
  grids = (SHAPE.latlng_grid_points(), SHAPE.latlng_grid_points(),
           SHAPE.pressure_grid_points(), SHAPE.time_grid_points())

  def interpn(points, values, xi, method='linear', bounds_error=True,
              fill_value=None):
    V.prove('linear interpolation of this field', method == 'linear' and
            np.array_equal(values, field))
    V.prove('on its own grid', len(points) == 4 and all(
        np.allclose(a, b) for a, b in zip(points, grids)))
    xi = np.asarray(xi) if V.concrete_mode else xi
    if xi.ndim == 1:
      xi = xi.reshape(1, -1)
    out = np.empty((len(xi), 2), dtype=object)
    for i, p in enumerate(xi):
      V.prove('looked up inside the grid', inside(V, p))
      seen.append(tuple(p))
      out[i] = wind_at(V, p)
    return out
  V.patch(scipy.interpolate, 'interpn', interpn)


def wind_at(V, p):
  return [V.fun('wind_u', *p), V.fun('wind_v', *p)]


def clip(V, x, lo, hi):
  return V.max(V.min(x, hi), lo)


def anywhere(V):
  x = units.Distance(km=V.real('x', -2000, 2000, pts=(-500, 500)))
  y = units.Distance(km=V.real('y', -2000, 2000, pts=(-500, 500)))
  if V.concrete_mode:
    folds = V.int('folds', 0, None, small=40)
    rest = V.real('rest', 0, 48, pts=(0, 24), hi_open=True)
    h = 48 * folds + rest
    t = dt.timedelta(hours=h)
    pos = rest if folds % 2 == 0 else 48 - rest
    V.away(rest, 0, 1e-6)
    V.away(rest, 48, 1e-6)
  else:
    folds, rest = V.int('folds', 0, None), V.real('rest', 0, 48, hi_open=True)
    h = 48 * folds + rest
    t = V.delta('elapsed')
    V.assume(V.secs(t) == 3600 * h)
    pos = V.ite(folds % 2 == 0, rest, 48 - rest)
  return x, y, t, pos


def elsewhere(V):
  x, y, t, _ = anywhere(V)
  return x, y, V.real('pressure', 100, 101325), t


@per_case(KINDS, con_max=150)
def point_lookup(V, kind):
  """Position and pressure clipped, time reflected; both components."""
  field, seen = np.zeros((2, 2)), []
  stub_interpolation(V, field, seen)
  f = build(V, kind, field)
  f.reset_forecast('k', T0)
  x, y, t, pos = anywhere(V)
  p = V.real('pressure', 100, 101325, pts=(5000, 14000))
  asked_before(V, f.get_forecast, (x, y, p, t), elsewhere(V), symbolic=False)
  w = f.get_forecast(x, y, p, t)
  at = (clip(V, x.km, -500, 500), clip(V, y.km, -500, 500),
        clip(V, p, 5000, 14000), pos)
  u, v = wind_at(V, at)
  if V.concrete_mode:      # single precision coordinates
    V.prove('where', all(V.near(a, b, 1e-3 + 1e-6 * abs(b))
                         for a, b in zip(seen[-1], at)))
    u, v = wind_at(V, seen[-1])
  V.prove('east wind there', V.eq(w.u.mps, u))
  V.prove('north wind there', V.eq(w.v.mps, v))


@per_case(KINDS, con_max=60)
def column_lookup(V, kind):
  """A column is the point lookups of its levels, in order."""
  field, seen = np.zeros((2, 2)), []
  stub_interpolation(V, field, seen)
  f = build(V, kind, field)
  f.reset_forecast('k', T0)
  x, y, t, _ = anywhere(V)
  n = V.choice('levels', [1, 2, 4])
  levels = [V.real(f'level{i}', 100, 101325, pts=(5000, 14000))
            for i in range(n)]
  e = elsewhere(V)
  asked_before(V, f.get_forecast_column, (x, y, levels, t),
               (e[0], e[1], [e[2]] * n, e[3]), symbolic=False)
  col = f.get_forecast_column(x, y, levels, t)
  V.prove('one wind per level', len(col) == n)
  for p, w in zip(levels, col):
    one = f.get_forecast(x, y, p, t)
    V.prove('level by level', V.And(V.eq(w.u.mps, one.u.mps),
                                    V.eq(w.v.mps, one.v.mps)))


@per_case(KINDS, con_max=20)
def not_before_reset(V, kind):
  """No forecast before the field was generated."""
  f = build(V, kind, np.zeros((2, 2)))
  x, y = units.Distance(km=V.real('x', -600, 600)), units.Distance(m=0.0)
  for call in (lambda: f.get_forecast(x, y, 9000.0, dt.timedelta()),
               lambda: f.get_forecast_column(x, y, [9000.0],
                                             dt.timedelta())):
    k, e = V.run(call)
    V.prove('refused', k == 'raise' and isinstance(e, RuntimeError))


@unit(con_max=10)
def resets(V):
  """A reset asks the sampler once, with the key and time it was given, and
  replaces the old field."""
  field, seen = np.ones((2, 2)), []
  s = Sampler(field)
  f = grid.GridBasedWindField(s)
  t = T0 + V.delta('start', 0, 1e8)
  f.reset_forecast('k', t)
  V.prove('asked once', V.And(len(s.asked) == 1, s.asked[0][0] == 'k',
                              V.eq(s.asked[0][1], t)))
  s.field = field * 3
  f.reset_forecast('l', t)
  stub_interpolation(V, s.field, seen)
  f.get_forecast(units.Distance(m=0.0), units.Distance(m=0.0), 9000.0,
                 dt.timedelta())
  V.prove('the new field is used', len(seen) == 1 and s.asked[-1][0] == 'l')


@unit(con_max=10)
def generated(V):
  """Both the sampler and the deprecated class decode, with the published
  weights, numbers drawn with the key they were given, anew each time."""
  field = np.full((2, 2), 1.5)
  keys = stub_model(V, field)
  s = gen.GenerativeWindFieldSampler()
  t = T0 + V.delta('start', 0, 1e8)
  got = s.sample_field('k', t)
  V.prove('the decoded field', np.array_equal(got, field))
  V.prove('the key it was given', keys == ['k'])
  s.sample_field('l', t)
  V.prove('the new key', keys == ['k', 'l'])
  V.prove('shape', s.field_shape.grid_shape() == SHAPE.grid_shape())
  f = gen.GenerativeWindField()
  f.reset_forecast('m', t)
  V.prove('the key it was given', keys == ['k', 'l', 'm'])
  V.prove('the decoded field', np.array_equal(f.field, field))
  g = gen.generative_wind_field_factory()
  g.reset_forecast('n', t)
  V.prove('the key it was given', keys[3:] == ['n'])


@functools.lru_cache(None)
def random_weights():
  w = vae.Decoder().init(jax.random.PRNGKey(7), np.zeros(64))
  return flax.serialization.msgpack_serialize(
      flax.serialization.to_state_dict(w))


@bounded_unit('12 keys, with random weights (the published ones are not in '
              'the source tree)', con_n=12, con_budget=60)
def real_decoder(V):
  """With the real decoder: the field has the shape its grid has, is finite,
  depends on the key only; both classes generate and answer the same."""
  key = jax.random.PRNGKey(int(V.int('key', 0, 2**31 - 1)))
  V.patch(models, 'load_offlineskies22', random_weights)
  a = gen.generative_wind_field_factory()
  b = gen.GenerativeWindField()
  start = T0 + dt.timedelta(days=int(V.int('day', 0, 3000)))
  a.reset_forecast(key, start)
  b.reset_forecast(key, T0)
  s = gen.GenerativeWindFieldSampler()
  field = s.sample_field(key, start)
  V.prove('shape', field.shape == SHAPE.grid_shape() == (21, 21, 10, 9, 2))
  V.prove('finite winds', np.all(np.isfinite(field)))
  V.prove('not constant', np.ptp(field[..., 0]) > 0 and
          np.ptp(field[..., 1]) > 0)
  V.prove('reproducible', np.array_equal(field, s.sample_field(key, T0)))
  other = s.sample_field(jax.random.split(key)[0], start)
  V.prove('another key, another field', not np.allclose(field, other))
  for _ in range(5):
    x, y, p, t = [V.real(n, *r) for n, *r in (
        ('x', -700, 700), ('y', -700, 700), ('p', 3000, 16000),
        ('t', 0, 100))]
    q = (units.Distance(km=x), units.Distance(km=y), p,
         dt.timedelta(hours=t))
    u, v = a.get_forecast(*q), b.get_forecast(*q)
    V.prove('both classes answer the same', np.allclose(
        [u.u.mps, u.v.mps], [v.u.mps, v.v.mps], atol=1e-4))
  i = [int(V.int(f'i{k}', 0, n - 1)) for k, n in enumerate((21, 21, 10, 9))]
  w = a.get_forecast(units.Distance(km=50. * i[0] - 500),
                     units.Distance(km=50. * i[1] - 500),
                     5000 + 1000. * i[2], dt.timedelta(hours=6. * i[3]))
  V.prove('grid values', np.allclose([w.u.mps, w.v.mps], field[tuple(i)],
                                     atol=1e-2))


@bounded_unit('300 random fields, grid points and points between', con_n=300,
              con_budget=30)
def grid_points(V):
  """With scipy's interpolation: the stored value at grid points, in between
  the corner values elsewhere; consistent across the time fold."""
  rng = np.random.RandomState(int(V.real('field', 0, 1e6)))
  field = rng.randn(*SHAPE.grid_shape())
  f = grid.GridBasedWindField(Sampler(field))
  f.reset_forecast('k', T0)
  i = [rng.randint(n) for n in SHAPE.direction_grid_shape()]
  x, y = [units.Distance(km=-500 + 50.0 * j) for j in i[:2]]
  p, t = 5000 + 1000.0 * i[2], 6.0 * i[3]
  fold = V.choice('fold', [0, 1, 2, 5])
  t = 48 * fold + (t if fold % 2 == 0 else 48 - t)
  w = f.get_forecast(x, y, p, dt.timedelta(hours=t))
  V.prove('stored value at a grid point', np.allclose(
      [w.u.mps, w.v.mps], field[tuple(i)], atol=1e-3))
  i = [min(a, n - 2) for a, n in zip(i, SHAPE.direction_grid_shape())]
  s = [V.real(f'share{j}', 0, 1) for j in range(4)]
  q = [a + b for a, b in zip(i, s)]
  w = f.get_forecast(
      units.Distance(km=-500 + 50.0 * q[0]),
      units.Distance(km=-500 + 50.0 * q[1]), 5000 + 1000.0 * q[2],
      dt.timedelta(hours=6.0 * q[3]))
  want = np.zeros(2)
  for c in np.ndindex(2, 2, 2, 2):
    share = np.prod([b if d else 1 - b for b, d in zip(s, c)])
    want += share * field[tuple(a + d for a, d in zip(i, c))]
  V.prove('linear in between', np.allclose([w.u.mps, w.v.mps], want,
                                           atol=1e-2))
  n = V.choice('levels', [1, 2, 181, 400])
  levels = list(np.linspace(4500, 14500, n))
  where = (units.Distance(km=-500 + 50.0 * q[0]),
           units.Distance(km=-500 + 50.0 * q[1]))
  column = f.get_forecast_column(*where, levels, dt.timedelta(hours=t))
  V.prove('one wind per level', len(column) == n)
  for i in {0, n // 2, n - 1}:
    w = f.get_forecast(*where, levels[i], dt.timedelta(hours=t))
    V.prove('level by level', np.allclose(
        [w.u.mps, w.v.mps], [column[i].u.mps, column[i].v.mps], atol=1e-6))

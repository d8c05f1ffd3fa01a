"""C18 true wind = forecast + noise."""
from balloon_learning_environment.env import simplex_wind_noise
from balloon_learning_environment.env import wind_field
from props.common import *
from pyver.spec import unit
import jax

T0 = dt.datetime(2012, 3, 4, 5, 6, 7, tzinfo=UTC)
BANDS = ((8000.0, (10.0, 0.0)), (10000.0, (0.0, 10.0)), (12000.0, (-10.0, 0.0)))


class Field(wind_field.WindField):
  """Any wind field: forecasts are an arbitrary function of the query."""

  def __init__(self, V):
    super().__init__()
    self.V, self.resets = V, []

  def reset_forecast(self, key, date_time):
    self.resets.append((key, date_time))

  def get_forecast(self, x, y, pressure, elapsed_time):
    return forecast(self.V, x, y, pressure, elapsed_time)


def query(V, x, y, pressure, t):
  return x.meters, y.meters, pressure, V.secs(t)


def forecast(V, *q):
  q = query(V, *q)
  return wind_field.WindVector(units.Velocity(mps=V.fun('forecast_u', *q)),
                               units.Velocity(mps=V.fun('forecast_v', *q)))


def noise_at(V, *q):
  q = query(V, *q)
  return wind_field.WindVector(units.Velocity(mps=V.fun('noise_u', *q)),
                               units.Velocity(mps=V.fun('noise_v', *q)))


def same(V, a, b):
  return V.And(V.eq(a.u.mps, b.u.mps), V.eq(a.v.mps, b.v.mps))


def anywhere(V):
  return (units.Distance(m=V.real('x', -1e7, 1e7)),
          units.Distance(m=V.real('y', -1e7, 1e7)),
          V.real('pressure', 1000, 101325, pts=(7999.9, 8000.0, 10000.0,
                                                12000.0)),
          V.delta('elapsed', 0, 1e7))


@unit(con_max=150)
def ground_truth(V):
  """Wind = forecast + noise at the same place and time, in any wind field."""
  V.patch(wind_field.SimplexWindNoise, 'get_wind_noise',
          lambda self, *q: noise_at(V, *q))
  f, q = Field(V), anywhere(V)
  asked_before(V, f.get_ground_truth, q, anywhere(V))
  w = f.get_ground_truth(*q)
  fc, n = forecast(V, *q), noise_at(V, *q)
  V.prove('east wind', V.eq(w.u.mps, fc.u.mps + n.u.mps))
  V.prove('north wind', V.eq(w.v.mps, fc.v.mps + n.v.mps))
  V.prove('asking changes nothing', same(V, f.get_ground_truth(*q), w))


@unit(con_max=150)
def two_components(V):
  """The noise is the u generator's in u and the v generator's in v."""
  def get_noise(self, *q):
    return V.fun('generator_' + self.which, *query(V, *q))
  V.patch(simplex_wind_noise.NoisyWindComponent, '__init__',
          lambda self, which: setattr(self, 'which', which))
  V.patch(simplex_wind_noise.NoisyWindComponent, 'get_noise', get_noise)
  q = anywhere(V)
  noise = wind_field.SimplexWindNoise()
  asked_before(V, noise.get_wind_noise, q, anywhere(V))
  w = noise.get_wind_noise(*q)
  V.prove('east noise', V.eq(w.u.mps, V.fun('generator_u', *query(V, *q))))
  V.prove('north noise', V.eq(w.v.mps, V.fun('generator_v', *query(V, *q))))


@unit(con_max=60)
def columns(V):
  """A column is the point forecasts of its levels, in order."""
  f = Field(V)
  x, y, _, t = anywhere(V)
  n = V.choice('levels', [0, 1, 2, 5])
  levels = [V.real(f'level{i}', 1000, 101325) for i in range(n)]
  col = f.get_forecast_column(x, y, levels, t)
  V.prove('one wind per level', len(col) == n)
  for p, w in zip(levels, col):
    V.prove('level by level', same(V, w, f.get_forecast(x, y, p, t)))


@unit(con_max=20)
def reset_seeds_both(V):
  """A reset passes the start time on and seeds forecast, u and v noise with
  different keys derived from the given one."""
  made = {}

  def split(key, num=2):
    return [made.setdefault((key, i), ('key', key, i)) for i in range(num)]
  noise = []
  V.patch(jax.random, 'split', split)
  V.patch(simplex_wind_noise.NoisyWindComponent, 'reset',
          lambda self, key: noise.append((self, key)))
  f, t = Field(V), T0 + V.delta('start', 0, 1e8)
  f.reset('k', t)
  V.prove('one forecast, at the start time', V.And(
      len(f.resets) == 1, V.eq(f.resets[0][1], t)))
  V.prove('both noise components', len(noise) == 2 and
          noise[0][0] is not noise[1][0])
  keys = [f.resets[0][0]] + [k for _, k in noise]
  V.prove('all different', len(set(keys)) == 3)
  V.prove('derived from the given key', all(
      root(k) == 'k' and k != 'k' for k in keys))
  V.prove('none derived from another', not any(
      a in chain(b) for a in keys for b in keys if a is not b))
  before = list(keys)
  f.reset('k', t)
  V.prove('same key, same seeds',
          [f.resets[-1][0]] + [k for _, k in noise[2:]] == before)


def chain(k):
  out = []
  while isinstance(k, tuple):
    out.append(k)
    k = k[1]
  return out


def root(k):
  while isinstance(k, tuple):
    k = k[1]
  return k


@unit(con_max=40)
def not_before_reset(V):
  """No wind before the field was reset."""
  kind, _ = V.run(Field(V).get_ground_truth, *anywhere(V))
  V.prove('refused', kind == 'raise')
  kind, _ = V.run(wind_field.SimpleStaticWindField().get_ground_truth,
                  *anywhere(V))
  V.prove('static field: refused', kind == 'raise')


@unit()
def static_field(V):
  """The four documented bands; nothing but the pressure matters."""
  f = wind_field.SimpleStaticWindField()
  q = anywhere(V)
  w = f.get_forecast(*q)
  u, v = 0.0, -10.0
  for limit, (bu, bv) in reversed(BANDS):
    u, v = V.ite(q[2] < limit, bu, u), V.ite(q[2] < limit, bv, v)
  V.prove('east', V.eq(w.u.mps, u))
  V.prove('north', V.eq(w.v.mps, v))
  f.reset_forecast('k', T0)
  V.prove('resetting changes nothing', same(V, f.get_forecast(*q), w))


@unit(con_max=60)
def vectors(V):
  """Winds add componentwise; anything else is refused."""
  a, b = [wind_field.WindVector(units.Velocity(mps=V.real('u', -200, 200)),
                                units.Velocity(mps=V.real('v', -200, 200)))
          for _ in range(2)]
  s = a.add(b)
  V.prove('sum', V.And(V.eq(s.u.mps, a.u.mps + b.u.mps),
                       V.eq(s.v.mps, a.v.mps + b.v.mps)))
  kind, _ = V.run(a.add, (b.u, b.v))
  V.prove('other things are refused', kind == 'raise')

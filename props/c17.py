"""C17 samplers of episode parameters."""
import math

from balloon_learning_environment.env.balloon import altitude_safety
from balloon_learning_environment.utils import sampling
from props.common import *
from pyver.spec import unit, bounded_unit
import jax
from tensorflow_probability.substrates import jax as tfp

LOOP = 'balloon_learning_environment.utils.sampling:sample_upwelling_infrared'


class Key:
  """A random key: each split makes new, different keys."""
  count = 0

  def __init__(self, parent=None, i=0):
    Key.count += 1
    self.parent, self.i, self.id = parent, i, Key.count
    self.used = False


class Draw:
  """A drawn value as the array scalar the library returns."""

  def __init__(self, x):
    self.x = x

  def item(self):
    return self.x

  def __ge__(self, o):
    return self.x >= o

  def __gt__(self, o):
    return self.x > o

  def __lt__(self, o):
    return self.x < o

  def __le__(self, o):
    return self.x <= o

  def __mul__(self, o):
    return Draw(self.x * o)

  __rmul__ = __mul__

  def __neg__(self):
    return Draw(-self.x)

  def __float__(self):
    return float(self.x)


def randomness(V):
  """Contracts of the random library: a draw lies in its support and depends
  on its key; a key is good for one draw only."""
  log = []

  def use(kind, key):
    V.prove('draws from a key', isinstance(key, Key))
    V.prove('no key is used twice', not key.used)
    key.used = True
    log.append((kind, key))

  def uniform(key, shape=(), dtype=None, minval=0., maxval=1.):
    use('uniform', key)
    V.prove('one number per draw', tuple(shape) == ())
    V.prove('non-empty range', minval < maxval)
    x = V.real('uniform', 0, 1, hi_open=True)
    r = minval + (maxval - minval) * x
    return Draw(r)

  def choice(key, a, shape=(), **kw):
    use('choice', key)
    V.prove('uniform choice of one number', tuple(shape) == () and not kw)
    V.prove('something to choose from', a >= 1)
    n = V.int('choice', 0, None, small=200000000)
    V.assume(n < a)
    return Draw(n)

  def randint(key, shape, minval, maxval, **kw):
    use('choice', key)
    n = V.int('choice', None, None, small=200000000)
    V.assume(V.And(n >= minval, n < maxval))
    return Draw(n)

  def split(key, num=2):
    V.prove('no key is split after use', isinstance(key, Key))
    key.used_split = True
    return [Key(key, i) for i in range(num)]

  class LogitNormal:

    def __init__(self, *a, **k):
      pass

    def sample(self, *shape, seed=None, **kw):
      use('logit', seed)
      return Draw(V.real('logit', 0, 1))

  for n, f in (('uniform', uniform), ('choice', choice), ('split', split),
               ('randint', randint)):
    V.patch(jax.random, n, f)
  V.patch(tfp.distributions, 'LogitNormal', LogitNormal)
  return log


@unit()
def location(V):
  """Within 10 degrees of the equator, 175 of Greenwich; separate draws."""
  log = randomness(V)
  p = sampling.sample_location(Key())
  lat, lng = p.lat().degrees, p.lng().degrees
  V.prove('latitude', V.And(V.le(-10, lat), V.le(lat, 10)))
  V.prove('longitude', V.And(V.le(-175, lng), V.le(lng, 175)))
  V.prove('two independent draws', len(log) == 2 and log[0][1] is not log[1][1])


@unit()
def location_reaches_everything(V):
  """Each draw spans its whole documented range."""
  ends = []

  def uniform(key, shape=(), dtype=None, minval=0., maxval=1.):
    ends.append((minval, maxval))
    return Draw(minval)
  V.patch(jax.random, 'uniform', uniform)
  V.patch(jax.random, 'split', lambda k, num=2: [Key(), Key()])
  p = sampling.sample_location(Key())
  V.prove('ranges', sorted(ends) == [(-175.0, 175.0), (-10.0, 10.0)])


@unit()
def time(V):
  """Inside the given bounds (by default 2011-2014), timezone kept."""
  randomness(V)
  if V.choice('default bounds', [True, False]):
    t = sampling.sample_time(Key())
    lo = dt.datetime(2011, 1, 1, tzinfo=UTC)
    hi = dt.datetime(2014, 12, 31, tzinfo=UTC)
  else:
    zone = dt.timezone(dt.timedelta(minutes=V.choice(
        'minutes east', [0, -300, 330])))
    lo = V.datetime('begin', 0, 2e9).astimezone(zone)
    hi = lo + V.delta('range', 1, 3e8)
    t = sampling.sample_time(Key(), lo, hi)
    V.prove('in their time zone', t.utcoffset() == lo.utcoffset())
  V.prove('not before the first date', t >= lo)
  V.prove('before the last date', t < hi)
  V.prove('whole seconds after the first date', V.whole(V.secs(t - lo)))


@unit()
def pressure(V):
  """Between 6500 Pa and the pressure at 50,000 feet."""
  atm = real_atmosphere()
  log = randomness(V)
  asked = []
  top = V.real('pressure_at_50000ft', 9000, 13000)

  def at_height(self, h):
    asked.append(h)
    return standard_atmosphere.AtmosphericValues(h, 210.0, top, .1)
  V.patch(standard_atmosphere.Atmosphere, 'at_height', at_height)
  if V.choice('atmosphere', [True, False]):
    p = sampling.sample_pressure(Key(), atm)
    V.prove('looks up 50,000 feet', len(asked) >= 1 and all(
        abs(h.meters - 15240) < 1e-3 for h in asked))
  else:
    p = sampling.sample_pressure(Key())
    top = 11400
  V.prove('low enough to float', p >= 6500)
  V.prove('high enough to be safe', V.le(p, top))
  V.prove('a single draw', len(log) == 1)


@unit()
def infrared(V):
  """Never below 225, never above 315; each retry draws anew."""
  log = randomness(V)
  state = {}

  def inv(V, e):
    if e.phase == 'preserved':
      return [('a retry uses a new key', isinstance(e.key, Key) and
               not e.key.used)]
    return []

  def havoc(V, e):
    state['looped'] = True
  V.loop(LOOP, 0, inv, havoc, kinds=dict(key=lambda s: Key()))
  x = sampling.sample_upwelling_infrared(Key())
  V.prove('at least 225', x >= 225)
  V.prove('at most 315', V.le(x, 315))


@unit()
def infrared_kinds(V):
  """Unknown distributions are refused."""
  kind, e = V.run(sampling.sample_upwelling_infrared, Key(),
                  V.choice('name', ['', 'normal', 'LOGIT_NORMAL', None]))
  V.prove('refused', kind == 'raise' and isinstance(e, ValueError))


@bounded_unit('sampled: random keys (the real random library)', con_n=60,
              con_budget=60)
def real_keys(V):
  """With real keys: ranges hold and the same key gives the same sample."""
  k = jax.random.PRNGKey(V.int('key', 0, 2**31 - 1))
  a, b = sampling.sample_location(k), sampling.sample_location(k)
  V.prove('location', abs(a.lat().degrees) <= 10.00001 and
          abs(a.lng().degrees) <= 175.00001 and a == b)
  t = sampling.sample_time(k)
  V.prove('time', dt.datetime(2011, 1, 1, tzinfo=UTC) <= t < dt.datetime(
      2014, 12, 31, tzinfo=UTC) and t == sampling.sample_time(k))
  p = sampling.sample_pressure(k)
  V.prove('pressure', 6500 <= p <= 11400 and p == sampling.sample_pressure(k))
  atm = standard_atmosphere.Atmosphere(k)
  p = sampling.sample_pressure(k, atm)
  V.prove('pressure is at or above 50,000 feet', p >= 6500 and atm.at_pressure(
      p).height >= altitude_safety.MIN_ALTITUDE - units.Distance(m=1))
  for name in ('logit_normal', 'inverse_lognormal'):
    x = sampling.sample_upwelling_infrared(k, name)
    V.prove('infrared ' + name, 225 <= x <= 350 and
            x == sampling.sample_upwelling_infrared(k, name))


@bounded_unit('sampled: 3000 keys', con_n=1, con_budget=60)
def spread(V):
  """Samples fill their ranges (no constant or lopsided sampler)."""
  split = np.asarray(jax.random.split(jax.random.PRNGKey(7), 300))
  ps = [sampling.sample_location(k) for k in split]
  lat = [p.lat().degrees for p in ps]
  lng = [p.lng().degrees for p in ps]
  V.prove('latitudes', min(lat) < -8 and max(lat) > 8)
  V.prove('longitudes', min(lng) < -140 and max(lng) > 140)
  V.prove('independent', abs(np.corrcoef(lat, lng)[0, 1]) < .3)
  pr = [sampling.sample_pressure(k) for k in split]
  V.prove('pressures', min(pr) < 7000 and max(pr) > 10900)
  ts = [sampling.sample_time(k).timestamp() for k in split]
  V.prove('times', min(ts) < 1296000000 + 3e6 and max(ts) > 1417000000)
  ir = [sampling.sample_upwelling_infrared(k, 'inverse_lognormal')
        for k in split[:60]]
  V.prove('infrared', min(ir) < 250 and max(ir) > 280)


@bounded_unit('one point: the documented rejection probability', con_n=1,
              con_budget=60)
def infrared_distribution(V):
  """About 5.5% of the default infrared draws are rejected, as documented."""
  V.choice('point', [0])
  split = np.asarray(jax.random.split(jax.random.PRNGKey(7), 60))
  xs = [sampling.sample_upwelling_infrared(k) for k in split]
  V.prove('the default infrared varies between episodes', len(set(xs)) > 10)

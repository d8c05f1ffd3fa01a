"""C21 the wind estimator (Gaussian process on forecast errors)."""
import math

from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env import wind_gp
from props.common import *
from pyver.spec import unit, per_case, bounded_unit
from sklearn import gaussian_process

HORIZON = 6 * 3600.0
SIGMA2 = 3.6**2


class Forecast(wind_field.WindField):

  def __init__(self, V, which=1.0):
    self.V, self.which, self.columns = V, which, []

  def reset_forecast(self, key, date_time):
    pass

  def at(self, x, y, p, t):
    q = (self.which, x, y, p, t)
    return self.V.fun('u', *q), self.V.fun('v', *q)

  def get_forecast(self, x, y, pressure, elapsed_time):
    u, v = self.at(x.meters, y.meters, pressure, self.V.secs(elapsed_time))
    return wind_field.WindVector(units.Velocity(mps=u), units.Velocity(mps=v))


def posterior(V, j, data, q):
  """What the regression answers about component j at q, given the data."""
  rows = [z for l, e in data for z in (*l, *e)]
  n = len(data)
  return (V.fun(f'mean{j}_of{n}', *rows, *q),
          V.fun(f'dev{j}_of{n}', *rows, *q, lo=0, hi=3.6))


class Regressor:
  """Contract of the regression library: after fitting rows X, Y, prediction
  returns per query two means and a deviation, any function of the data
  fitted last and of the query."""
  fits = None

  def __init__(self, V, ndim):
    self.V, self.ndim, self.log = V, ndim, []

  def fit(self, x, y):
    self.V.prove('fits at least one measurement', len(x) > 0)
    self.V.prove('one error per measurement', len(x) == len(y))
    self.log.append(([tuple(r) for r in x], [tuple(r) for r in y]))
    return self

  def predict(self, x, return_std=False, return_cov=False):
    V = self.V
    V.prove('predicts after fitting', bool(self.log) and return_std)
    xs, ys = self.log[-1]
    means = np.empty((len(x), 2), dtype=object)
    dev = np.empty((len(x), 2), dtype=object)
    for i, r in enumerate(x):
      for j in (0, 1):
        means[i, j], dev[i, j] = posterior(V, j, list(zip(xs, ys)), r)
    if V.concrete_mode:
      means, dev = means.astype(float), dev.astype(float)
    return means, (dev if self.ndim == 2 else dev[:, 0])


def estimator(V, ndim=2):
  reg = Regressor(V, ndim)
  V.patch(gaussian_process, 'GaussianProcessRegressor', lambda *a, **k: reg)
  f = Forecast(V)
  return wind_gp.WindGP(f), f, reg


def measure(V, g, f, i):
  """One arbitrary measurement; returns (location, error) it stands for."""
  x, y, p, t = (V.real(f'x{i}', -1e6, 1e6), V.real(f'y{i}', -1e6, 1e6),
                V.real(f'p{i}', 1000, 20000), V.delta(f't{i}', 0, 1e6))
  u, v = V.real(f'u{i}', -100, 100), V.real(f'v{i}', -100, 100)
  g.observe(units.Distance(m=x), units.Distance(m=y), p, t,
            wind_field.WindVector(units.Velocity(mps=u),
                                  units.Velocity(mps=v)))
  fu, fv = f.at(x, y, p, V.secs(t))
  return (x, y, p, V.secs(t)), (u - fu, v - fv)


def rows_equal(V, a, b):
  return V.And(*[V.eq(q, r) for q, r in zip(a, b)])


COUNTS = {'0': 0, '1': 1, '2': 2, '3': 3}


@per_case(COUNTS, con_max=120)
def fed_with_fresh_errors(V, n):
  """The regression sees the errors of exactly the measurements fresher than
  the window, in order; the answer is forecast + estimated error."""
  ndim = V.choice('deviations', [1, 2])
  g, f, reg = estimator(V, ndim)
  seen = [measure(V, g, f, i) for i in range(n)]
  k = V.choice('levels', [1, 3])
  x, y, t = (V.real('x', -1e6, 1e6), V.real('y', -1e6, 1e6),
             V.secs(V.delta('t', 0, 1e6)))
  for loc, _ in seen:
    V.assume(V.Or(loc[3] - t > HORIZON + .001, loc[3] - t < HORIZON - .001))
    V.assume(V.Or(t - loc[3] > HORIZON + .001, t - loc[3] < HORIZON - .001))
  q = np.empty((k, 4), dtype=object if not V.concrete_mode else float)
  for i in range(k):
    q[i] = [x, y, V.real(f'level{i}', 1000, 20000), t]
  means, dev = g.query_batch(q)
  V.prove('one answer per query', means.shape == (k, 2) and
          dev.shape == (k,))
  fresh = [(l, e) for l, e in seen
           if V.truth(V.And(l[3] - t < HORIZON, t - l[3] < HORIZON))]
  if fresh:
    V.prove('fitted once', len(reg.log) == 1)
    xs, ys = reg.log[-1]
    V.prove('exactly the fresh measurements', len(xs) == len(fresh))
    for (l, e), a, b in zip(fresh, xs, ys):
      V.prove('where it was measured', rows_equal(V, a, l))
      V.prove('how far the forecast was off', rows_equal(V, b, e))
  else:
    V.prove('nothing to fit', not reg.log)
  for i in range(k):
    fc = f.at(*q[i])
    for j in (0, 1):
      err = posterior(V, j, fresh, q[i])[0] if fresh else 0
      V.prove('forecast plus error', V.eq(means[i, j], fc[j] + err))
    if fresh:
      d = [posterior(V, j, fresh, q[i])[1]**2 / SIGMA2 for j in (0, 1)]
      want = d[0] if ndim == 1 else (d[0] + d[1]) / 2
    else:
      want = 1
    V.prove('uncertainty is the share of the prior variance',
            V.near(dev[i], want, 1e-9))
    V.prove('uncertainty in [0, 1]', V.And(V.le(0, dev[i]),
                                           V.le(dev[i], 1 + 1e-9)))


HISTORIES = {'nothing': 0, 'one more': 1, 'reset': 2, 'reset, one more': 3,
             'reset, as many': 4}


@per_case(HISTORIES, con_max=100)
def asked_again(V, what):
  """The answer to a query is that to the history of measurements, whatever
  was asked before: the same place and time or others, the same number of
  measurements or another, before a reset or since."""
  g, f, reg = estimator(V)
  seen = [measure(V, g, f, i) for i in range(2)]
  x, y, p, t = (V.real('x', -1e6, 1e6), V.real('y', -1e6, 1e6),
                V.real('p', 1000, 20000), V.secs(V.delta('t', 0, 1e6)))
  t2 = t if V.choice('when', [0, 1]) == 0 else V.secs(V.delta('t2', 0, 1e6))
  q = lambda t: np.array([[x, y, p, t]],
                         dtype=float if V.concrete_mode else object)
  g.query_batch(q(t))
  if what >= 2:
    f, seen = Forecast(V, 2.0), []
    g.reset(f)
  for i in range({0: 0, 1: 1, 2: 0, 3: 1, 4: 2}[what]):
    seen.append(measure(V, g, f, 2 + i))
  for loc, _ in seen:
    for s in (t, t2):
      V.assume(V.Or(loc[3] - s > HORIZON + .001, loc[3] - s < HORIZON - .001))
      V.assume(V.Or(s - loc[3] > HORIZON + .001, s - loc[3] < HORIZON - .001))
  means, dev = g.query_batch(q(t2))
  fresh = [(l, e) for l, e in seen
           if V.truth(V.And(l[3] - t2 < HORIZON, t2 - l[3] < HORIZON))]
  fc = f.at(x, y, p, t2)
  for j in (0, 1):
    err = posterior(V, j, fresh, q(t2)[0])[0] if fresh else 0
    V.prove('forecast plus error', V.eq(means[0, j], fc[j] + err))
  d = [posterior(V, j, fresh, q(t2)[0])[1]**2 / SIGMA2
       for j in (0, 1)] if fresh else [1, 1]
  V.prove('uncertainty', V.near(dev[0], (d[0] + d[1]) / 2, 1e-9))


@unit(con_max=60)
def single_query(V):
  """A point query is the batch of one."""
  g, f, reg = estimator(V)
  measure(V, g, f, 0)
  x, y, p, t = (V.real('x', -1e6, 1e6), V.real('y', -1e6, 1e6),
                V.real('p', 1000, 20000), V.delta('t', 0, 1e6))
  m, d = g.query(units.Distance(m=x), units.Distance(m=y), p, t)
  q = np.array([[x, y, p, V.secs(t)]],
               dtype=float if V.concrete_mode else object)
  mb, db = g.query_batch(q)
  V.prove('same answer', V.And(V.eq(m[0], mb[0, 0]), V.eq(m[1], mb[0, 1]),
                               V.eq(d, db[0])))


@unit(con_max=40)
def query_is_pure(V):
  """Asking far in the future does not forget: measurements stay available."""
  g, f, reg = estimator(V)
  loc, e = measure(V, g, f, 0)
  q = lambda t: np.array([[0.0, 0.0, 9000.0, t]],
                         dtype=float if V.concrete_mode else object)
  g.query_batch(q(loc[3] + 10 * HORIZON))
  V.prove('too old', not reg.log)
  g.query_batch(q(loc[3] + V.real('dt', -HORIZON + 1, HORIZON - 1)))
  V.prove('remembered', len(reg.log) == 1 and len(reg.log[0][0]) == 1)


@unit(con_max=20)
def reset_forgets(V):
  """After a reset only the new forecast counts."""
  g, f, reg = estimator(V)
  measure(V, g, f, 0)
  f2 = Forecast(V, 2.0)
  g.reset(f2)
  x, y, p, t = (V.real('x', -1e6, 1e6), V.real('y', -1e6, 1e6),
                V.real('p', 1000, 20000), V.delta('t', 0, 1e6))
  m, d = g.query(units.Distance(m=x), units.Distance(m=y), p, t)
  u, v = f2.at(x, y, p, V.secs(t))
  V.prove('the new forecast', V.And(V.eq(m[0], u), V.eq(m[1], v)))
  V.prove('no confidence', V.eq(d, 1))
  V.prove('nothing fitted', not reg.log)
  loc, err = measure(V, g, f2, 1)
  g.query(*(units.Distance(m=x), units.Distance(m=y), p,
            V.delta('t1', 0, 1e6)))
  V.prove('only what was measured since', V.And(*[
      V.And(len(xs) == 1, len(ys) == 1, rows_equal(V, xs[0], loc),
            rows_equal(V, ys[0], err)) for xs, ys in reg.log]))


@bounded_unit('200 random histories of up to 30 measurements', con_n=200,
              con_budget=40)
def real_process(V):
  """With scikit-learn: the posterior of the documented exponential kernel
  (357 km, 326 Pa, 9.6 h; variances 3.6^2 and 0.05)."""
  rng = np.random.RandomState(int(V.real('seed', 0, 1e6)))

  class F(Forecast):

    def at(self, x, y, p, t):
      return 3 + x * 1e-5, 2 - p * 1e-4
  g = wind_gp.WindGP(F(V))
  n = rng.randint(1, 30)
  scale = np.array([357000, 357000, 326.0, 34560])
  obs = rng.randn(n, 4) * scale + [0, 0, 9000, 50000]
  obs[:, 3] = np.abs(obs[:, 3])
  w = rng.randn(n, 2) * 4
  for o, u in zip(obs, w):
    g.observe(units.Distance(m=o[0]), units.Distance(m=o[1]), o[2],
              dt.timedelta(seconds=o[3]), wind_field.WindVector(
                  units.Velocity(mps=u[0]), units.Velocity(mps=u[1])))
  q = np.zeros((5, 4))
  q[:, :2], q[:, 3] = rng.randn(2) * 1e5, rng.uniform(0, 90000)
  q[:, 2] = rng.uniform(5000, 14000, 5)
  m, d = g.query_batch(q)
  keep = np.abs(obs[:, 3] - np.round(q[0, 3], 6)) < HORIZON
  o, y = obs[keep], (w - np.stack([3 + obs[:, 0] * 1e-5,
                                   2 - obs[:, 2] * 1e-4], 1))[keep]
  k = lambda a, b: SIGMA2 * np.exp(-np.sqrt(np.sum(
      ((a[:, None] - b[None]) / scale)**2, -1)))
  fc = np.stack([3 + q[:, 0] * 1e-5, 2 - q[:, 2] * 1e-4], 1)
  if len(o):
    kk = np.linalg.inv(k(o, o) + .05 * np.eye(len(o)))
    want = fc + k(q, o) @ kk @ y
    var = SIGMA2 - np.sum((k(q, o) @ kk) * k(q, o), 1)
  else:
    want, var = fc, np.full(5, SIGMA2)
  V.prove('posterior mean', np.allclose(m, want, atol=1e-4))
  V.prove('posterior uncertainty', np.allclose(d, var / SIGMA2, atol=1e-4))


@bounded_unit('up to 1200 measurements of one flight', con_n=6, con_budget=60)
def long_flights(V):
  """However many were made, the fresh measurements are the ones fitted."""
  g, f, reg = estimator(V, V.choice('deviations', [1, 2]))
  rng = np.random.RandomState(int(V.int('flight', 0, 2**31 - 1)))
  every = V.choice('every', [20, 60, 180])
  f.at = lambda x, y, p, t: (3 + x * 1e-5, 2 - p * 1e-4)
  seen = []
  for i in range(int(V.int('measurements', 500, 1200))):
    x, y, p, t = *rng.uniform(-1e5, 1e5, 2), rng.uniform(5e3, 14e3), every * i
    u, v = rng.uniform(-20, 20, 2)
    g.observe(units.Distance(m=x), units.Distance(m=y), p,
              dt.timedelta(seconds=t), wind_field.WindVector(
                  units.Velocity(mps=u), units.Velocity(mps=v)))
    a, b = f.at(x, y, p, t)
    seen.append(((x, y, p, t), (u - a, v - b)))
  for back in (0, 100, 400):
    now = every * (len(seen) - back) + 1
    g.query_batch(np.array([[0., 0., 9000., now]]))
    fresh = [(l, e) for l, e in seen if abs(l[3] - now) < HORIZON]
    xs, ys = reg.log[-1]
    V.prove('exactly the fresh measurements', len(xs) == len(fresh) and
            np.allclose(xs, [l for l, _ in fresh], rtol=1e-9) and
            np.allclose(ys, [e for _, e in fresh], atol=1e-6))


@bounded_unit('columns of up to 600 levels', con_n=6, con_budget=30)
def long_columns(V):
  """Every query of a batch is answered as it is alone."""
  g, f, reg = estimator(V, V.choice('deviations', [1, 2]))
  for i in range(V.choice('measured', [0, 1, 3])):
    measure(V, g, f, i)
  n = int(V.int('levels', 150, 600))
  q = np.zeros((n, 4))
  q[:, 2], q[:, 3] = np.linspace(5000, 14000, n), 1000.0
  means, dev = g.query_batch(q)
  V.prove('one answer each', means.shape == (n, 2) and dev.shape == (n,))
  for i in (0, n // 3, 181, n - 2, n - 1):
    i = min(i, n - 1)
    m, d = g.query_batch(q[i:i + 1])
    V.prove('as alone', np.allclose(m[0], means[i], atol=1e-9) and
            abs(d[0] - dev[i]) < 1e-9)

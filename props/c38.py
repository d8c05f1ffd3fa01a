"""C38 generated wind fields."""
import types

from balloon_learning_environment.generative import vae
from props.networks_stub import *
from pyver.spec import unit, per_case, bounded_unit

SMALL = dict(latlng_slices=3, flow_field_width=2, pressure_slices=2,
             time_slices=2)
SHAPES = {'small': SMALL,
          'tall': dict(latlng_slices=5, flow_field_width=3, pressure_slices=2,
                       time_slices=1),
          'late': dict(latlng_slices=4, flow_field_width=1, pressure_slices=1,
                       time_slices=3)}


@unit(con_max=40)
def grid(V):
  """The sizes of a grid agree with each other."""
  n, w = V.int('latlng', 1, 1000), V.int('width', 1, 1000)
  p, t = V.int('pressures', 1, 1000), V.int('times', 1, 1000)
  f = vae.FieldShape(latlng_slices=n, flow_field_width=w, pressure_slices=p,
                     time_slices=t)

  def same(a, b):
    return len(a) == len(b) and V.And(*[V.eq(x, y) for x, y in zip(a, b)])
  V.prove('one direction', same(f.direction_grid_shape(), (n, n, p, t)))
  V.prove('both', same(f.grid_shape(), (n, n, p, t, 2)))
  V.prove('points', V.eq(f.num_grid_points(), n * n * p * t))
  V.prove('values', V.eq(f.output_length(), 2 * f.num_grid_points()))
  V.prove('flow fields', V.eq(f.num_flow_fields(), p * t))
  V.prove('flow field values', V.eq(f.num_flow_field_units(), w * w * p * t))
  V.prove('what the benchmark uses', same(
      vae.FieldShape().grid_shape(), (21, 21, 10, 9, 2)))


@per_case({'two': 2, 'three': 3, 'nine': 9, 'twenty_one': 21}, con_max=20)
def axes(V, n):
  """Evenly spaced grid points from end to end."""
  V.patch(vae, 'jnp', Numbers(V))
  side = V.real('displacement', 1, 5000)
  low, high = V.real('min_pressure', 100, 50000), V.real('max', 100, 110000)
  V.assume(V.lt(low, high))
  k = V.int('hours', 1, 24)
  f = vae.FieldShape(
      latlng_slices=n, pressure_slices=n, time_slices=n,
      latlng_displacement_km=side, min_pressure_pa=low, max_pressure_pa=high,
      time_horizon_hours=k * (n - 1))

  def even(name, got, first, last):
    got = list(got)
    V.prove(name + ': one point per slice', len(got) == n)
    V.prove(name + ': even', V.And(*[
        V.eq((x - first) * (n - 1), (last - first) * i)
        for i, x in enumerate(got)]))
  even('distance', f.latlng_grid_points(), -side, side)
  even('pressure', f.pressure_grid_points(), low, high)
  # whole hours, rounded down (single precision may lose one)
  times = list(f.time_grid_points())
  V.prove('time: one point per slice', len(times) == n)
  V.prove('time: even', V.And(*[V.And(
      V.le(k * i - 1, t), V.le(t, k * i), V.whole(t))
      for i, t in enumerate(times)]))


def decoder(V, f, hidden=2, width=3):
  """A decoder whose layers and smooth enlargement are arbitrary."""
  log, made = [], []
  V.patch(vae, 'jnp', Numbers(V))
  V.patch(vae.nn, 'Dense', dense(V, log))
  V.patch(vae.nn, 'relu', relu(V))
  psi = {}

  def resize(x, shape, method='linear', **k):
    made.append((x, tuple(shape), method))
    out = np.empty(tuple(shape), dtype=object)
    for i in np.ndindex(out.shape):
      out[i] = V.real('flow_' + '_'.join(map(str, i)), -1e3, 1e3)
      psi[i] = out[i]
    return out
  V.patch(jax.image, 'resize', resize)
  d = plain(vae.Decoder, num_hidden_layers=hidden,
            hidden_layer_network_width=width, field_shape=f)
  z = V.array('latent', 2, -5, 5)
  return d(z), z, log, made, psi


@per_case(SHAPES, con_max=10)
def decoded(V, shape):
  """A wind field on the grid, whose wind is the curl of a flow field: what
  flows into a cell flows out of it."""
  f = vae.FieldShape(**shape)
  out, z, log, made, psi = decoder(V, f)
  n, p, t = f.latlng_slices, f.pressure_slices, f.time_slices
  V.prove('on the grid', out.shape == (n, n, p, t, 2))
  V.prove('layers', [x.features for x in log] ==
          [3, 3, f.flow_field_width**2 * p * t])
  V.prove('of the latent', alike(V, log[0].inputs, z))
  V.prove('one after the other', V.And(*[
      is_relu(V, b.inputs, a.outputs) for a, b in zip(log, log[1:])]))
  (small, large, method), = made
  V.prove('the last layer is the flow fields',
          small.shape == (f.flow_field_width, f.flow_field_width, p * t) and
          alike(V, small, log[-1].outputs))
  V.prove('enlarged with a border, each on its own, without new wiggles',
          large == (n + 2, n + 2, p * t) and
          getattr(method, 'name', method).lower() in (
              'linear', 'bilinear', 'trilinear', 'triangle'))
  u, v = (out[..., k].reshape(n, n, p * t) for k in range(2))
  V.prove('wind along the first axis', V.And(*[
      V.eq(2 * u[i, j, k], psi[i + 2, j + 1, k] - psi[i, j + 1, k])
      for i, j, k in np.ndindex(u.shape)]))
  V.prove('wind along the second axis', V.And(*[
      V.eq(2 * v[i, j, k], psi[i + 1, j, k] - psi[i + 1, j + 2, k])
      for i, j, k in np.ndindex(u.shape)]))
  V.prove('no sources or sinks', V.And(*[
      V.eq(u[i, j + 1, k] - u[i, j - 1, k], v[i - 1, j, k] - v[i + 1, j, k])
      for i in range(1, n - 1) for j in range(1, n - 1)
      for k in range(p * t)]))


def encoder(V, field, hidden, latents=3):
  log = []
  V.patch(vae, 'jnp', Numbers(V))
  V.patch(vae.nn, 'Dense', dense(V, log))
  V.patch(vae.nn, 'relu', relu(V))
  for name, f in list(vars(vae).items()):
    if type(f).__name__ == 'PjitFunction':
      V.patch(vae, name, raw(f))
  e = plain(vae.Encoder, num_latents=latents, num_hidden_layers=hidden,
            hidden_layer_network_width=2)
  return e(field), log


@unit(con_max=40)
def squash(V):
  """Inputs are squashed into (-1, 1): odd, increasing, keeping zero."""
  x, y = V.real('x', -1e6, 1e6, pts=(0, 50)), V.real('y', -1e6, 1e6)
  _, log = encoder(V, values(x, y, -x), 0)
  a, b, c = log[0].inputs
  V.prove('inside', V.And(V.lt(-1.0, a), V.lt(a, 1.0)))
  V.prove('odd', V.eq(a, -c))
  V.prove('keeps the sign', V.And(
      V.Implies(x > 0, V.le(0.0, a)), V.Implies(x < 0, V.le(a, 0.0)),
      V.Implies(V.lt(1e-3, x), a > 0), V.Implies(V.lt(x, -1e-3), a < 0)))
  V.prove('half way at 50', V.Implies(V.eq(x, 50.0), V.eq(a, 0.5)))
  V.prove('increasing', V.Implies(V.lt(x, y), V.le(a, b)))


@per_case({'none': 0, 'two': 2}, con_max=10)
def encoded(V, hidden):
  """The mean and spread of the latents of a whole field."""
  field = V.array('wind', 4, -50, 50).reshape(2, 1, 1, 1, 2)
  (mean, spread), log = encoder(V, field, hidden)
  V.prove('layers', [x.features for x in log] == [2] * hidden + [3, 3])
  V.prove('of the whole squashed field', len(log[0].inputs) == 4 and V.And(*[
      V.eq(a * V.max(50 + b, 50 - b), b)
      for a, b in zip(log[0].inputs, field.reshape(-1))]))
  V.prove('one after the other', V.And(True, *[
      is_relu(V, b.inputs, a.outputs)
      for a, b in zip(log[:hidden], log[1:])]))
  V.prove('both of the same features', alike(V, log[-1].inputs,
                                             log[-2].inputs))
  named = {x.name: x.outputs for x in log[-2:]}
  V.prove('mean', alike(V, mean, named['mean']))
  V.prove('spread', alike(V, spread, named['logvar']))


@per_case({'noisy': True, 'plain': False}, con_max=30)
def latents(V, noisy):
  """A latent is the mean plus noise of the given log-variance, or the mean;
  it is what is decoded."""
  V.patch(vae, 'jnp', Numbers(V))
  asked = []

  def normal(key, shape=(), *a, **k):
    asked.append((key, tuple(shape)))
    return eps
  V.patch(jax.random, 'normal', normal)
  mean, spread = V.array('mean', 2, -5, 5), V.array('logvar', 2, -5, 5)
  eps, wind = V.array('noise', 2, -4, 4), object()
  decoded_ = []
  m = plain(
      vae.WindFieldVAE, num_latents=2, reparameterize_latents=noisy,
      encoder=lambda x: vae.EncoderOutput(mean, spread) if x is wind else None,
      decoder=lambda z: (decoded_.append(z), 'field')[1],
      sigma=types.SimpleNamespace(value=V.real('sigma', .1, 3)))
  out = m(wind, 'key')
  z, = decoded_
  if noisy:
    V.prove('noise of this key', asked == [('key', (2,))])
    V.prove('latent', V.And(*[
        V.eq(z[i], mean[i] + eps[i] * V.math('exp', 0.5 * spread[i]))
        for i in range(2)]))
  else:
    V.prove('latent', alike(V, z, mean))
  V.prove('what comes out', V.And(
      out.reconstruction == 'field', alike(V, out.encoder_output.mean, mean),
      alike(V, out.encoder_output.logvar, spread),
      V.eq(out.sigma, m.sigma.value)))
  V.prove('generated', m.generate(mean) == 'field' and
          alike(V, decoded_[-1], mean))


@bounded_unit('the installed jax and flax, random weights and latents, two '
              'grids', con_n=4, con_budget=60)
def generated(V):
  """With the real library: shape, range, no sources or sinks, smooth."""
  f = vae.FieldShape(**V.choice('shape', [SMALL, dict(
      latlng_slices=9, flow_field_width=3, pressure_slices=3,
      time_slices=2)]))
  m = vae.WindFieldVAE(num_latents=4, field_shape=f)
  seed = int(V.int('seed', 0, 1000))
  k1, k2, k3 = jax.random.split(jax.random.PRNGKey(seed), 3)
  weights = m.init(k1, jnp.ones(f.output_length()), k2)
  z = 3 * jax.random.normal(k3, (4,))
  w = np.asarray(m.apply(weights, z, method=m.generate))
  V.prove('on its grid', w.shape == f.grid_shape())
  V.prove('the same again', np.array_equal(w, np.asarray(
      m.apply(weights, z, method=m.generate))))
  u, v = w[..., 0], w[..., 1]
  div = (u[1:-1, 2:] - u[1:-1, :-2] + v[2:, 1:-1] - v[:-2, 1:-1])
  V.prove('no sources or sinks', np.abs(div).max() <= 1e-4 * max(
      1e-3, np.abs(w).max()))
  V.prove('wind', np.abs(w).max() > 0)
  out = m.apply(weights, jnp.asarray(w), k3)
  V.prove('reconstruction on the grid',
          out.reconstruction.shape == f.grid_shape())
  V.prove('latents', out.encoder_output.mean.shape == (4,) and
          out.encoder_output.logvar.shape == (4,) and float(out.sigma) > 0)
  again = m.apply(weights, jnp.asarray(w), k1)
  V.prove('noise from the key', np.array_equal(
      out.encoder_output.mean, again.encoder_output.mean) and
          not np.array_equal(out.reconstruction, again.reconstruction))
  plain = vae.WindFieldVAE(num_latents=4, field_shape=f,
                           reparameterize_latents=False)
  a, b = (plain.apply(weights, jnp.asarray(w), k) for k in (k1, k3))
  V.prove('no noise', np.array_equal(a.reconstruction, b.reconstruction))
  V.prove('of the mean', np.allclose(a.reconstruction, m.apply(
      weights, a.encoder_output.mean, method=m.generate), atol=1e-5))


@bounded_unit('the installed jax, the default grid', con_n=1)
def default_axes(V):
  """The axes of the benchmark's grid, with the real library."""
  f = vae.FieldShape()
  V.prove('distance', np.allclose(f.latlng_grid_points(),
                                  np.linspace(-500, 500, 21)))
  V.prove('pressure', np.allclose(f.pressure_grid_points(),
                                  np.linspace(5000, 14000, 10)))
  V.prove('time', list(f.time_grid_points()) == list(range(0, 49, 6)))
  V.prove('default model', isinstance(vae.model(), vae.WindFieldVAE) and
          vae.model().num_latents == 64 and vae.model().field_shape == f and
          vae.model().reparameterize_latents)

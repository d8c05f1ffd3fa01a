"""C41 the value networks of the agents."""
import types

from balloon_learning_environment.agents import networks
from props.networks_stub import *
from pyver.spec import unit, per_case, bounded_unit

SIZES = {'one_layer': (1, 3, 2), 'two_layers': (2, 2, 3),
         'four_layers': (4, 3, 2), 'eight_layers': (8, 2, 3),
         'eleven_layers': (11, 1, 2)}


def stubs(V):
  log = []
  V.patch(networks, 'jnp', Numbers(V))
  V.patch(networks.nn, 'Dense', dense(V, log))
  V.patch(networks.nn, 'relu', relu(V))
  V.patch(jax.nn, 'relu', relu(V))

  def softmax(x, axis=-1, **k):
    rows = np.moveaxis(x, axis, -1)
    out = np.empty(rows.shape, dtype=object)
    for i in np.ndindex(rows.shape[:-1]):
      for j in range(rows.shape[-1]):
        out[i + (j,)] = V.fun('softmax', float(j), *rows[i], lo=0, hi=1)
    return np.moveaxis(out, -1, axis)
  V.patch(networks.nn, 'softmax', softmax)
  V.patch(jax.nn, 'softmax', softmax)
  return log, softmax


def observation(V, shape):
  n = int(np.prod(shape))
  return V.array('observed', n, -10, 10).reshape(shape)


def layers(V, log, x, sizes):
  V.prove('these layers', [l.features for l in log] == sizes)
  V.prove('of the whole observation', alike(V, log[0].inputs, x))
  V.prove('each of what the one before lets through', V.And(True, *[
      is_relu(V, b.inputs, a.outputs) for a, b in zip(log, log[1:])]))


@per_case(SIZES, con_max=10)
def mlp(V, sizes):
  """One value per action, of all of the observation."""
  depth, width, n = sizes
  log, _ = stubs(V)
  x = observation(V, V.choice('shape', [(4,), (2, 2), (1, 3, 1)]))
  for_dopamine = V.choice('dopamine', [False, True])
  m = plain(networks.MLPNetwork, num_actions=n, num_layers=depth,
            hidden_units=width, is_dopamine=for_dopamine)
  out = m(x)
  values_ = out.q_values if for_dopamine else out
  layers(V, log, x, [width] * (depth - 1) + [n])
  V.prove('the values of the actions', len(values_) == n and
          alike(V, values_, log[-1].outputs))


@per_case(SIZES, con_max=10)
def quantile(V, sizes):
  """The value of an action is the mean of its atoms; its probabilities are
  over its own atoms."""
  depth, width, n = sizes
  atoms = V.choice('atoms', [1, 2, 3])
  log, softmax = stubs(V)
  x = observation(V, V.choice('shape', [(4,), (2, 2), (1, 3, 1)]))
  m = plain(networks.QuantileNetwork, num_actions=n, num_layers=depth, num_atoms=atoms,
            hidden_units=width,
            inputs_preprocessed=V.choice('preprocessed', [False, True]))
  out = m(x)
  layers(V, log, x, [width] * (depth - 1) + [n * atoms])
  V.prove('atoms of each action', out.logits.shape == (n, atoms) and
          alike(V, out.logits, log[-1].outputs))
  V.prove('one value per action', len(out.q_values) == n)
  V.prove('the mean of its atoms', V.And(*[
      V.eq(out.q_values[i] * atoms, sum(out.logits[i], 0.0))
      for i in range(n)]))
  V.prove('probabilities of its atoms', alike(
      V, out.probabilities, softmax(out.logits, axis=-1)))


@bounded_unit('the installed jax and flax, random sizes up to 10 layers of 20 '
              'units, 5 actions, 51 atoms; random weights and observations',
              con_n=6, con_budget=60)
def computed(V):
  """With the real library: shapes, means, probabilities, parameters."""
  depth, width = int(V.int('layers', 1, 10)), int(V.int('width', 1, 20))
  n, atoms = int(V.int('actions', 2, 5)), V.choice('atoms', [1, 3, 51])
  seed = int(V.int('seed', 0, 1000))
  k1, k2, k3 = jax.random.split(jax.random.PRNGKey(seed), 3)
  x = jax.random.normal(k1, (3, 4))
  q = networks.QuantileNetwork(num_actions=n, num_layers=depth,
                               hidden_units=width, num_atoms=atoms)
  w = q.init(k2, x)
  out = q.apply(w, x)
  V.prove('shapes', out.q_values.shape == (n,) and
          out.logits.shape == out.probabilities.shape == (n, atoms))
  V.prove('mean', np.allclose(out.q_values, np.mean(out.logits, 1), atol=1e-5))
  p = np.exp(out.logits - np.max(out.logits, axis=1, keepdims=True))
  V.prove('probabilities', np.allclose(
      out.probabilities, p / p.sum(1, keepdims=True), atol=1e-5))
  V.prove('layout does not matter', np.allclose(
      q.apply(w, x.reshape(12)).q_values, out.q_values))
  V.prove('every feature counts', all(
      depth > 1 or not np.allclose(q.apply(w, x.at[i, j].add(5.0)).logits,
                                   out.logits, atol=1e-7)
      for i, j in ((0, 0), (2, 3), (1, 2))))
  m = networks.MLPNetwork(num_actions=n, num_layers=depth, hidden_units=width)
  w = m.init(k3, x)
  V.prove('one value per action', m.apply(w, x).shape == (n,))
  sizes = sorted(tuple(a.shape) for a in jax.tree_util.tree_leaves(w))
  V.prove('parameters', sizes == sorted(
      s for a, b in zip([12] + [width] * (depth - 1),
                        [width] * (depth - 1) + [n])
      for s in ((a, b), (b,))))
  d = networks.MLPNetwork(num_actions=n, num_layers=depth, hidden_units=width,
                          is_dopamine=True)
  V.prove('the same for dopamine', np.array_equal(
      d.apply(w, x).q_values, m.apply(w, x)))
  V.prove('whole numbers as well', np.allclose(
      m.apply(w, np.arange(12)), m.apply(w, np.arange(12.0))))


@bounded_unit('the installed jax and flax, observations as the environment '
              'gives them (1099 numbers), every number in turn; random '
              'weights', con_n=2, con_budget=100)
def whole_observation(V):
  """Each of the 1099 numbers of an observation counts, in its own way."""
  seed = int(V.int('seed', 0, 1000))
  k1, k2 = jax.random.split(jax.random.PRNGKey(seed))
  x = jax.random.normal(k1, (1099,))
  for m in (networks.MLPNetwork(num_actions=3, num_layers=1, hidden_units=5),
            networks.QuantileNetwork(num_actions=3, num_layers=1,
                                     hidden_units=5, num_atoms=2)):
    w = m.init(k2, x)
    f = lambda z: getattr(m.apply(w, z), 'q_values', m.apply(w, z))
    slope = np.asarray(jax.jacobian(f)(x))
    V.prove('per action and number', slope.shape == (3, 1099))
    V.prove('every number counts', (slope != 0).any(0).all())
    V.prove('each in its own way', len(np.unique(slope, axis=1).T) == 1099)
    i = int(V.int('number', 0, 1098))
    V.prove('as much as its weight says', np.allclose(
        f(x.at[i].add(1.0)) - f(x), slope[:, i], atol=1e-3))

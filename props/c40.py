"""C40 training and evaluation batches of wind fields."""
import io
import pickle

from balloon_learning_environment.generative import dataset_wind_field_reservoir
from props.common import *
from pyver.spec import unit, per_case, bounded_unit
import jax
import jax.numpy as jnp
import tensorflow as tf

DWR = dataset_wind_field_reservoir
SHARDS = 200


class Dataset:
  """Wind fields known by their number; remembers what was asked for."""

  def __init__(self, V, n):
    self.V, self.n, self.shape = V, n, (n, 21, 21)
    self.asked = []

  def __len__(self):
    self.unknown()

  def unknown(self, *a, **k):
    from pyver.values import Unsupported
    raise Unsupported('another use of the dataset')

  __array__ = __jax_array__ = __iter__ = unknown

  def __getitem__(self, key):
    rest = ()
    if isinstance(key, tuple):
      key, rest = key[0], key[1:]
    if any(r is not Ellipsis and r != slice(None) for r in rest):
      self.unknown()
    if isinstance(key, Drawn):
      self.asked.append((key.lo, key.hi, key.count, 'drawn'))
    elif isinstance(key, slice) and key.step is None:
      V, n = self.V, self.n

      def place(i, default):
        if i is None:
          return default
        if V.truth(V.lt(i, 0)):
          i = i + n
        return V.max(0, V.min(i, n))
      lo, hi = place(key.start, 0), place(key.stop, n)
      self.asked.append((lo, hi, V.max(hi - lo, 0), 'all'))
    else:
      self.unknown()
    return ('fields', len(self.asked))


class Drawn:

  def __init__(self, lo, hi, count):
    self.lo, self.hi, self.count = lo, hi, count

  def __add__(self, k):
    return Drawn(self.lo + k, self.hi + k, self.count)

  __radd__ = __add__

  def unknown(self, *a, **k):
    from pyver.values import Unsupported
    raise Unsupported('another use of the drawn numbers')

  __array__ = __jax_array__ = __iter__ = __getitem__ = unknown


def keys(V, log):
  V.patch(jax.random, 'PRNGKey', lambda seed: (seed,))
  V.patch(jax.random, 'split', lambda key, num=2: [
      key + (i + 1,) for i in range(num)])

  def choice(key, a, shape=(), replace=True, p=None, axis=0):
    V.prove('every field alike', p is None)
    V.prove('without replacement', not replace)
    V.prove('a batch', len(shape) == 1)
    log.append(key)
    return Drawn(0, a, shape[0])
  V.patch(jax.random, 'choice', choice)


@unit(con_max=60)
def batches(V):
  """Training batches come from all fields but the last ones, which are the
  evaluation batch."""
  log = []
  keys(V, log)
  n = V.int('fields', 1, 100000, pts=(1, 10, 2000))
  held = V.int('held_out', 0, 100000, pts=(0, 1, 10))
  V.assume(V.le(held, n))
  data = Dataset(V, n)
  r = DWR.DatasetWindFieldReservoir(data, eval_batch_size=held,
                                    rng_seed=V.choice('seed', [0, 9]))
  size = V.int('size', 1, 100000, pts=(1, 33))
  V.assume(V.le(size, n - held))
  for i in range(2):
    del data.asked[:]
    r.get_batch(size)
    V.prove('one draw', len(data.asked) == 1)
    (lo, hi, count, how), = data.asked
    V.prove('of training fields', V.And(how == 'drawn', V.eq(lo, 0),
                                        V.eq(hi, n - held)))
    V.prove('as many as wanted', V.eq(count, size))
    del data.asked[:]
    r.get_eval_batch()
    (lo, hi, count, how), = data.asked
    V.prove('the fields held out', V.And(how == 'all', V.eq(hi - lo, held),
                                         V.Or(V.eq(held, 0), V.eq(hi, n))))
    V.prove('as many as said', V.eq(count, held))
  V.prove('fresh randomness for each batch', len(set(log)) == len(log) == 2)
  V.prove('never a key that is split again', log[0] != log[1][:len(log[0])])


@bounded_unit('up to 12 fields of 2 values, all held-out counts, the installed '
              'jax, random seeds', con_n=40, con_budget=60)
def drawn(V):
  """What comes out, with the real library."""
  n = int(V.int('fields', 1, 12))
  held = int(V.int('held_out', 0, 12, pts=(0,))) % (n + 1)
  seed = int(V.int('seed', 0, 10000))
  data = jnp.arange(2.0 * n).reshape(n, 2) + 1
  rows = [tuple(map(float, x)) for x in data]

  def out(x):
    return [tuple(map(float, y)) for y in x]
  kw = dict(eval_batch_size=held, rng_seed=seed)
  r, twin = (DWR.DatasetWindFieldReservoir(data, **kw) for _ in range(2))
  V.prove('held out', out(r.get_eval_batch()) == rows[n - held:])
  got = []
  for size in (n - held, (n - held + 1) // 2, n - held):
    if not size:
      continue
    x = r.get_batch(size)
    V.prove('shape', x.shape == (size, 2))
    got.append(out(x))
    V.prove('of the training fields, none twice',
            len(set(got[-1])) == size and set(got[-1]) <= set(rows[:n - held]))
    V.prove('reproducible', out(twin.get_batch(size)) == got[-1])
  V.prove('still held out', out(r.get_eval_batch()) == rows[n - held:])
  V.prove('more than there are', V.run(
      lambda: r.get_batch(n - held + 1))[0] == 'raise')


@bounded_unit('40 fields, 40 batches of 12, the installed jax', con_n=5,
              con_budget=30)
def varied(V):
  """Batches differ from each other, and with the seed."""
  seed = int(V.int('seed', 0, 1000))
  data = jnp.arange(40.0).reshape(40, 1)
  seen = []
  for s in (seed, seed + 1):
    r = DWR.DatasetWindFieldReservoir(data, eval_batch_size=4, rng_seed=s)
    seen += [tuple(map(float, r.get_batch(12)[:, 0])) for _ in range(40)]
  V.prove('all different', len(set(seen)) == 80)
  V.prove('every training field is used', {x for b in seen for x in b} ==
          set(map(float, range(36))))
  V.prove('default batch held out', DWR.DatasetWindFieldReservoir(
      data).get_eval_batch().shape == (10, 1))


@unit(con_max=3)
def from_files(V):
  """All shards, in order."""
  opened = []
  where = V.choice('where', ['/data', 'gs://x/y'])

  class File(io.BytesIO):

    def __init__(self, name, mode='r'):
      V.prove('read as bytes', mode == 'rb')
      opened.append(name)
      super().__init__(pickle.dumps(np.full((2, 1), len(opened) - 1)))
  V.patch(tf.io.gfile, 'GFile', File)
  r = DWR.DatasetWindFieldReservoir(where)
  V.prove('these files', sorted(opened) == [
      f'{where}/batch{i:04d}.pickle' for i in range(SHARDS)])
  order = [int(x.split('batch')[1][:4]) for x in opened]
  V.prove('in order', [order[int(x)] for x in r.dataset[:, 0]] == [
      i for i in range(SHARDS) for _ in range(2)])

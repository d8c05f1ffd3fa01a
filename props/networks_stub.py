"""Network libraries as contracts: arrays of exact values, and layers that are
arbitrary functions of the number of their inputs and outputs."""
import types

from props.common import *
import jax
import jax.numpy as jnp


def raw(f):
  """The function as written, without the library's wrapper."""
  for _ in range(4):
    f = getattr(f, '__wrapped__', f)
  return f


def plain(cls, **attrs):
  """An object with the methods of a module as written, outside of the
  library's bookkeeping."""
  body = {}
  for name, f in vars(cls).items():
    if isinstance(f, (staticmethod, classmethod)):
      body[name] = type(f)(raw(f.__func__))
    elif isinstance(f, types.FunctionType) and (
        name == '__call__' or not name.startswith('__')):
      if str(f.__module__).startswith('balloon_learning_environment'):
        body[name] = raw(f)
    elif isinstance(f, property):
      body[name] = f
  return V_obj(type(cls.__name__, (), body), attrs)


def V_obj(cls, attrs):
  o = cls.__new__(cls)
  o.__dict__.update(attrs)
  return o


def values(*xs):
  out = np.empty(len(xs), dtype=object)
  out[:] = list(xs)
  return out


def each(f, x):
  if isinstance(x, np.ndarray):
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
      out[i] = f(x[i])
    return out
  return f(x)


class Numbers:
  """jax.numpy on arrays of exact values."""

  def __init__(self, V):
    self.V = V

  float32 = float64 = bfloat16 = object

  def __getattr__(self, name):
    return getattr(np, name)

  def abs(self, x):
    V = self.V
    return each(lambda a: V.max(a, -a), x)

  absolute = fabs = abs

  def sign(self, x):
    V = self.V
    return each(lambda a: 1.0 if V.truth(V.lt(0.0, a)) else
                (-1.0 if V.truth(V.lt(a, 0.0)) else 0.0), x)

  def maximum(self, x, y):
    V = self.V
    return each(lambda a: V.max(a, y), x)

  def linspace(self, start, stop, num=50, endpoint=True, dtype=None):
    V, n = self.V, num - 1 if endpoint else num
    xs = [start + (stop - start) * (V.const(i) / n) for i in range(num)]
    if dtype is not None and np.issubdtype(np.dtype(dtype), np.integer):
      xs = [V.floor(x) for x in xs]
    return values(*xs)

  def sum(self, x, axis=None, **k):
    if axis is None:
      x, axis = x.reshape(-1), 0
    return np.add.reduce(x, axis=axis)

  def mean(self, x, axis=None, **k):
    n = x.size if axis is None else x.shape[axis]
    return self.sum(x, axis) / n

  average = mean

  def sqrt(self, x):
    return each(lambda a: self.V.math('sqrt', a), x)

  def max(self, x, axis=None, **k):
    out, rest = None, list(np.ravel(x))
    if axis is not None and x.ndim > 1:
      from pyver.values import Unsupported
      raise Unsupported('max along an axis')
    for a in rest:
      out = a if out is None else self.V.max(out, a)
    return out

  amax = max


def dense(V, log, weights='layer'):
  """nn.Dense: an arbitrary vector of the requested length, a function of the
  inputs and of which layer it is."""

  def make(*a, features=None, name=None, **kw):
    features = a[0] if a else features

    def layer(x):
      i = len(log)
      log.append(types.SimpleNamespace(
          inputs=x, features=features, name=name, options=kw))
      V.prove('a vector goes into a layer', getattr(x, 'ndim', 0) == 1)
      out = values(*[V.real(f'{weights}{i}_{j}', -1e3, 1e3)
                     for j in range(features)])
      log[-1].outputs = out
      return out
    return layer
  return make


def relu(V):
  return lambda x: each(lambda a: V.max(a, 0.0), x)


def is_relu(V, got, of):
  return len(got) == len(of) and V.And(*[
      V.eq(a, V.max(b, 0.0)) for a, b in zip(got, of)])


def alike(V, a, b):
  a, b = list(np.ravel(a)), list(np.ravel(b))
  return len(a) == len(b) and V.And(*[V.eq(x, y) for x, y in zip(a, b)])

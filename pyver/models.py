"""Models (assumed contracts) of the numeric primitives, used on symbolic
arguments only.  Concrete arguments always go to the real primitive."""
import builtins
import datetime as dt
import math
import operator

import numpy as np
import z3

from pyver import runtime
from pyver import values as v
from pyver.engine import deep_sym
from pyver.values import SNum, SBool, SDelta, SDatetime, SRange, Unsupported

M = runtime.MODELS
A = runtime.ALWAYS


def model(*fs):
  def deco(g):
    for f in fs:
      M[f] = g
    return g
  return deco


def elementwise(g):
  def h(s, x, *a, **k):
    k.pop('dtype', None)
    if isinstance(x, (list, tuple)):
      x = mkarray(x)
    if isinstance(x, np.ndarray) and x.ndim:
      out = np.empty(x.shape, dtype=object)
      for ix in np.ndindex(x.shape):
        out[ix] = h(s, x[ix], *[q[ix] if isinstance(q, np.ndarray) and
                                q.ndim else q for q in a], **k)
      return out
    return g(s, x, *a, **k)
  return h


def mkarray(x):
  if isinstance(x, np.ndarray):
    return x
  if isinstance(x, (SNum, SBool)):
    o = np.empty((), dtype=object)
    o[()] = x
    return o
  x = [mkarray(y) if isinstance(y, (list, tuple)) else y for y in x]
  if x and isinstance(x[0], np.ndarray):
    out = np.empty((len(x),) + x[0].shape, dtype=object)
    for i, y in enumerate(x):
      out[i] = y
    return out
  out = np.empty(len(x), dtype=object)
  for i, y in enumerate(x):
    out[i] = y
  return out


def num(x):
  return x if isinstance(x, SNum) else SNum(v.lift(x))


def _is_sn(x):
  return isinstance(x, SNum)


def _reduce(s, name, args, k):
  if len(args) == 1:
    args = list(args[0])
  if not args:
    raise ValueError(f'{name}() of empty sequence')
  key = k.get('key')
  if key is None and all(v.lift(x) is not None for x in args):
    r = args[0]
    for x in args[1:]:
      r = v.s_min(r, x) if name == 'min' else v.s_max(r, x)
    return r
  if key is None and all(isinstance(x, (SDelta, dt.timedelta)) for x in args):
    return SDelta(_reduce(s, name, [num(v.secs(x)) for x in args], {}))
  if key is None and all(isinstance(x, (SDatetime, dt.datetime))
                         for x in args):
    return SDatetime(_reduce(s, name, [SDatetime.of(x).t for x in args], {}))
  best = args[0]
  kb = key(best) if key else best
  for x in args[1:]:
    kx = key(x) if key else x
    if (kx < kb) if name == 'min' else (kx > kb):
      best, kb = x, kx
  return best


@model(builtins.min)
def _min(s, *a, **k):
  return _reduce(s, 'min', a, k)


@model(builtins.max)
def _max(s, *a, **k):
  return _reduce(s, 'max', a, k)


@model(builtins.abs, np.abs, np.absolute, math.fabs, np.fabs)
@elementwise
def _abs(s, x):
  return abs(x)


@model(builtins.sum, np.sum)
def _sum(s, xs, start=0, **k):
  if k:
    if set(k) != {'axis'} or not isinstance(xs, np.ndarray):
      raise Unsupported('np.sum with options')
    return np.add.reduce(xs, axis=k['axis'])
  r = start
  for x in (xs.flat if isinstance(xs, np.ndarray) else xs):
    r = r + x
  return r


@model(np.mean)
def _mean(s, xs, axis=None, **k):
  if k:
    raise Unsupported('np.mean with options')
  if axis is not None:
    xs = np.asarray(xs, dtype=object)
    return np.add.reduce(xs, axis=axis) / xs.shape[axis]
  xs = list(xs.flat if isinstance(xs, np.ndarray) else xs)
  return _sum(s, xs) / len(xs)


@model(builtins.float, np.float64, np.float32)
def _float(s, x=0.0):
  if isinstance(x, np.ndarray) and x.size == 1:
    x = x.flat[0]
  if isinstance(x, SBool):
    x = x._num()
  if isinstance(x, SNum):
    return SNum(v.toreal(x.e))
  return float(x)


@model(builtins.int, math.trunc, np.int32, np.int64)
def _int(s, x=0, *a):
  if isinstance(x, SBool):
    return x._num()
  if isinstance(x, SNum):
    r = v.s_trunc(x)
    if isinstance(r, SNum):
      u = s.unique(r)
      return r if u is None else u
    return r
  return int(x, *a)


@model(np.trunc)
@elementwise
def _nptrunc(s, x):
  return SNum(v.toreal(v.s_trunc(x).e))


@model(builtins.bool)
def _bool(s, x=False):
  if isinstance(x, SBool):
    return x
  return bool(x)


@model(builtins.len)
def _len(s, x):
  f = getattr(type(x), '__vc_len__', None)     # a sequence of symbolic length
  return f(x) if f else len(x)


A[builtins.len] = _len


@model(builtins.round)
def _round(s, x, n=None):
  if n is not None:
    raise Unsupported('round(x, n)')
  # round half to even
  f = z3.ToInt(x.e)
  d = x.e - z3.ToReal(f)
  return SNum(z3.If(d < 0.5, f, z3.If(d > 0.5, f + 1, z3.If(
      f % 2 == 0, f, f + 1))))


@model(math.floor)
def _floor(s, x):
  return SNum(x.e if x.e.is_int() else z3.ToInt(x.e))


@model(math.ceil)
def _ceil(s, x):
  return SNum(x.e if x.e.is_int() else -z3.ToInt(-x.e))


@model(np.floor)
@elementwise
def _npfloor(s, x):
  return SNum(z3.ToReal(_floor(s, num(x)).e))


@model(np.ceil)
@elementwise
def _npceil(s, x):
  return SNum(z3.ToReal(_ceil(s, num(x)).e))


@model(builtins.range)
def _range(s, *a):
  cs = [s.unique(x) if isinstance(x, SNum) else x for x in a]
  if all(c is not None for c in cs):
    return range(*[int(c) for c in cs])
  if len(a) == 1:
    return SRange(0, a[0])
  if len(a) == 2:
    return SRange(a[0], a[1])
  return SRange(*a)


def _isinstance(s, x, t):
  ts = t if isinstance(t, tuple) else (t,)
  flat = []
  for q in ts:
    flat.extend(q if isinstance(q, tuple) else (q,))
  ts = flat
  if isinstance(x, SNum):
    return any(q in ((int,) if x.e.is_int() else (float,)) or
               q in (np.floating,) and not x.e.is_int() or
               q is object or q is SNum or getattr(q, '__module__', '') ==
               'numbers' for q in ts)
  if isinstance(x, SBool):
    return any(q in (bool, int, np.bool_, object) for q in ts)
  if isinstance(x, SDelta):
    return any(q in (dt.timedelta, object) for q in ts)
  if isinstance(x, SDatetime):
    return any(q in (dt.datetime, dt.date, object) for q in ts)
  return isinstance(x, t)


A[builtins.isinstance] = _isinstance


def _type(s, x, *a):
  if a:
    return type(x, *a)
  if isinstance(x, SNum):
    return int if x.e.is_int() else float
  if isinstance(x, SBool):
    return bool
  if isinstance(x, SDelta):
    return dt.timedelta
  if isinstance(x, SDatetime):
    return dt.datetime
  return type(x)


A[builtins.type] = _type


@model(builtins.str, builtins.repr, builtins.format, builtins.print)
def _str(s, *a, **k):
  return '<sym>'


@model(builtins.divmod)
def _divmod(s, a, b):
  return a // b, a % b


@model(builtins.pow, math.pow, np.power)
def _pow(s, a, b):
  if isinstance(a, (list, tuple)):
    a = mkarray(a)
  return a**b if _is_sn(a) or isinstance(a, np.ndarray) else num(a)**b


for _n in ('exp', 'log', 'sin', 'cos', 'tan', 'tanh'):
  def _mk(n):
    @elementwise
    def g(s, x, *a):
      if a:
        raise Unsupported('log with base')
      return s.fn(n, num(x))
    return g
  _g = _mk(_n)
  M[getattr(math, _n)] = _g
  M[getattr(np, _n)] = _g
for _n, _np in (('asin', 'arcsin'), ('acos', 'arccos'), ('atan', 'arctan')):
  _g = _mk(_n)
  M[getattr(math, _n)] = _g
  M[getattr(np, _np)] = _g


@model(math.log10, np.log10)
@elementwise
def _log10(s, x):
  return s.fn('log', num(x)) / math.log(10)


@model(math.atan2, np.arctan2)
@elementwise
def _atan2(s, a, b):
  return s.fn('atan2', num(a), num(b))


@model(math.sqrt)
def _msqrt(s, x):
  if s.decide(num(x).e < 0):
    raise ValueError('math domain error')
  return s.fn_sqrt(num(x))


@model(np.sqrt)
@elementwise
def _sqrt(s, x):
  return s.fn_sqrt(num(x))


@model(np.square)
@elementwise
def _square(s, x):
  return x * x


@model(math.hypot, np.hypot)
def _hypot(s, *a):
  r = 0
  for x in a:
    r = r + x * x
  return s.fn_sqrt(num(r))


@model(math.radians, np.radians, np.deg2rad)
@elementwise
def _rad(s, x):
  return num(x) * math.pi / 180


@model(math.degrees, np.degrees, np.rad2deg)
@elementwise
def _deg(s, x):
  return num(x) * 180 / math.pi


@model(math.fmod)
def _fmod(s, a, b):
  a, b = num(a), num(b)
  q = v.s_trunc(SNum(v.toreal((a / b).e)))
  return SNum(v.toreal(a.e) - v.toreal(b.e) * z3.ToReal(q.e))


@model(math.isnan, np.isnan, math.isinf, np.isinf)
@elementwise
def _never(s, x):
  return False


@model(math.isfinite, np.isfinite)
@elementwise
def _always(s, x):
  return True


@model(math.isclose, np.isclose)
def _isclose(s, a, b, rel_tol=None, abs_tol=None, rtol=None, atol=None):
  raise Unsupported('isclose')


@model(math.copysign, np.copysign)
def _copysign(s, a, b):
  return s.ite(num(b) >= 0, abs(num(a)), -abs(num(a)))


@model(np.sign)
@elementwise
def _sign(s, x):
  x = num(x)
  return SNum(z3.If(x.e > 0, z3.RealVal(1), z3.If(
      x.e < 0, z3.RealVal(-1), z3.RealVal(0))))


@model(np.clip)
def _clip(s, x, lo=None, hi=None, a_min=None, a_max=None, **k):
  lo = lo if lo is not None else a_min
  hi = hi if hi is not None else a_max

  def one(x):
    if lo is not None:
      x = v.s_max(x, lo)
    if hi is not None:
      x = v.s_min(x, hi)
    return x
  if isinstance(x, (list, tuple)):
    x = mkarray(x)
  if isinstance(x, np.ndarray):
    out = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(x.shape):
      out[ix] = one(x[ix])
    return out
  return one(x)


@model(np.minimum, np.fmin)
def _npmin(s, a, b):
  return _bc(v.s_min, a, b)


@model(np.maximum, np.fmax)
def _npmax(s, a, b):
  return _bc(v.s_max, a, b)


def _bc(f, a, b):
  if isinstance(a, (list, tuple)):
    a = mkarray(a)
  if isinstance(b, (list, tuple)):
    b = mkarray(b)
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    aa, bb = np.broadcast_arrays(
        a if isinstance(a, np.ndarray) else mkarray0(a),
        b if isinstance(b, np.ndarray) else mkarray0(b))
    out = np.empty(aa.shape, dtype=object)
    for ix in np.ndindex(aa.shape):
      out[ix] = f(aa[ix], bb[ix])
    return out
  return f(a, b)


def mkarray0(x):
  o = np.empty((), dtype=object)
  o[()] = x
  return o


@model(np.where)
def _where(s, c, *ab):
  if not ab:
    raise Unsupported('np.where with one argument')
  a, b = ab
  if isinstance(c, (SBool, bool, np.bool_)) and not isinstance(
      a, np.ndarray) and not isinstance(b, np.ndarray):
    return v.s_ite(c, a, b)
  cc, aa, bb = np.broadcast_arrays(*[
      q if isinstance(q, np.ndarray) else mkarray0(q) for q in (c, a, b)])
  out = np.empty(cc.shape, dtype=object)
  for ix in np.ndindex(cc.shape):
    out[ix] = v.s_ite(cc[ix], aa[ix], bb[ix])
  return out


@model(np.array, np.asarray, np.asanyarray, np.ascontiguousarray)
def _array(s, x, *a, **k):
  return mkarray(x).copy() if not isinstance(x, SNum) else x


@model(np.linalg.norm)
def _norm(s, x, ord=None, axis=None, **k):
  if ord not in (None, 2) or k:
    raise Unsupported('norm order')

  def norm(qs):
    r = 0
    for q in qs:
      r = r + q * q
    return s.fn_sqrt(num(r))
  x = mkarray(x)
  if axis is None:
    if x.ndim > 1 and ord is not None:
      raise Unsupported('matrix norm')
    return norm(x.flat)
  rows = np.moveaxis(x, axis, -1)
  out = np.empty(rows.shape[:-1], dtype=object)
  for ix in np.ndindex(out.shape):
    out[ix] = norm(rows[ix])
  return out


@model(np.argmax)
def _argmax(s, xs, *a, **k):
  if a or any(v is not None for v in k.values()):
    raise Unsupported('argmax along an axis')
  xs = list(mkarray(xs).ravel())
  best = 0
  for i in range(1, len(xs)):
    if bool(xs[i] > xs[best]):
      best = i
  return np.int64(best)


@model(np.argmin)
def _argmin(s, xs, *a, **k):
  if a or any(v is not None for v in k.values()):
    raise Unsupported('argmin along an axis')
  xs = list(mkarray(xs).ravel())
  best = 0
  for i in range(1, len(xs)):
    if bool(xs[i] < xs[best]):
      best = i
  return np.int64(best)


@model(np.dot, np.vdot, np.inner)
def _dot(s, a, b):
  a, b = mkarray(a), mkarray(b)
  if b.ndim > 1 or not a.ndim:
    raise Unsupported('dot of these shapes')

  def dot(row):
    if len(row) != len(b):
      raise ValueError('shapes not aligned')
    r = 0
    for x, y in zip(row, b):
      r = r + x * y
    return r
  out = np.empty(a.shape[:-1], dtype=object)
  if not out.shape:
    return dot(a)
  for ix in np.ndindex(out.shape):
    out[ix] = dot(a[ix])
  return out


@model(np.any, builtins.any)
def _any(s, xs, *a, **k):
  if isinstance(xs, (SBool, SNum)):
    return xs
  for x in (xs.flat if isinstance(xs, np.ndarray) else xs):
    if x:
      return True
  return False


@model(np.all, builtins.all)
def _all(s, xs, *a, **k):
  if isinstance(xs, (SBool, SNum)):
    return xs
  for x in (xs.flat if isinstance(xs, np.ndarray) else xs):
    if not x:
      return False
  return True


@model(np.isscalar)
def _isscalar(s, x):
  return isinstance(x, SNum)


@model(np.ndim)
def _ndim(s, x):
  return x.ndim


def _mulc(op):
  def g(s, a, b, **k):
    return op(a, b)
  return g


for _f, _o in ((np.add, operator.add), (np.subtract, operator.sub),
               (np.multiply, operator.mul), (np.divide, operator.truediv),
               (np.true_divide, operator.truediv),
               (np.floor_divide, operator.floordiv), (np.mod, operator.mod),
               (np.remainder, operator.mod), (np.less, operator.lt),
               (np.less_equal, operator.le), (np.greater, operator.gt),
               (np.greater_equal, operator.ge), (np.equal, operator.eq),
               (operator.add, operator.add), (operator.mul, operator.mul)):
  M[_f] = _mulc(_o)


# -- numpy buffers the code fills element by element: float32/float64 buffers
# hold mathematical reals while a session runs.


class WriteOnly:
  """A buffer of symbolic length: stores are dropped, any read is
  unsupported."""

  def __setitem__(self, key, value):
    pass

  def __getattr__(self, name):
    raise Unsupported('reading an array of symbolic shape')

  def __getitem__(self, key):
    raise Unsupported('reading an array of symbolic shape')

  def __len__(self):
    raise Unsupported('reading an array of symbolic shape')

  def __array__(self, *a, **k):
    raise Unsupported('reading an array of symbolic shape')

  def __iter__(self):
    raise Unsupported('reading an array of symbolic shape')


def _buffer(fill):
  def g(s, shape, *a, **k):
    if isinstance(shape, SNum):
      return WriteOnly()
    if deep_sym(shape):
      raise Unsupported('array of symbolic shape')
    d = k.get('dtype', a[0] if a else None)
    if d is not None and np.dtype(d).kind not in 'fO':
      return {0.0: np.zeros, 1.0: np.ones}[fill](shape, dtype=d)
    out = np.empty(shape, dtype=object)
    out[...] = fill
    return out
  return g


A[np.zeros] = _buffer(0.0)
A[np.ones] = _buffer(1.0)
A[np.empty] = _buffer(0.0)


def _full(s, shape, val, *a, **k):
  out = np.empty(shape, dtype=object)
  out[...] = val
  return out


M[np.full] = _full


@model(np.concatenate, np.hstack)
def _concat(s, xs, *a, **k):
  xs = [mkarray(x) for x in xs]
  return np.concatenate(xs, *a, **k)


# -- datetime


def _timedelta(s, days=0, seconds=0, microseconds=0, milliseconds=0,
               minutes=0, hours=0, weeks=0):
  t = (num(days) * 86400 + seconds + num(microseconds) / 1000000 +
       num(milliseconds) / 1000 + num(minutes) * 60 + num(hours) * 3600 +
       num(weeks) * 604800)
  return SDelta(t)


M[dt.timedelta] = _timedelta


def _fromtimestamp(s, t, tz=None):
  if tz is None:
    raise Unsupported('fromtimestamp without tz')
  return SDatetime(num(t), tz)


def _dt_dispatch(name):
  return None


M[dt.datetime.fromtimestamp] = _fromtimestamp


# -- bisect: exact on a concrete sorted list


def _bisect(right):
  def g(s, a, x, lo=0, hi=None, *, key=None):
    if key is not None or lo or hi is not None:
      raise Unsupported('bisect with options')
    n = 0
    xs = list(a)
    r = None
    # binary search on a sorted list == number of elements (<= x | < x); the
    # list must be sorted for that, which is checked here.
    for i in range(1, len(xs)):
      s.prove('bisect is called on a sorted list', xs[i - 1] <= xs[i])
    for y in xs:
      if not ((x >= y) if right else (x > y)):
        break
      n += 1
    return n
  return g


import bisect as _b  # pylint: disable=wrong-import-position
M[_b.bisect] = M[_b.bisect_right] = _bisect(True)
M[_b.bisect_left] = _bisect(False)


@model(np.searchsorted)
def _searchsorted(s, a, x, side='left', sorter=None):
  return _bisect(side == 'right')(s, list(a), x)


@model(np.digitize)
def _digitize(s, x, bins, right=False):
  return _bisect(not right)(s, list(bins), x)


def _cell(xs, x):
  """Index i with xs[i] <= x < xs[i+1], clamped (case split)."""
  for i in range(1, len(xs) - 1):
    if x < xs[i]:
      return i - 1
  return len(xs) - 2


@model(np.interp)
def _interp(s, x, xp, fp, left=None, right=None, period=None):
  if period is not None:
    raise Unsupported('np.interp with period')
  xp, fp = list(xp), list(fp)
  if x <= xp[0]:
    return num(fp[0] if left is None or x == xp[0] else left)
  if x >= xp[-1]:
    return num(fp[-1] if right is None or x == xp[-1] else right)
  i = _cell(xp, x)
  return fp[i] + (fp[i + 1] - fp[i]) * ((x - xp[i]) / (xp[i + 1] - xp[i]))


# -- scipy interpolators (assumed: piecewise (bi)linear over their own data)
from scipy import interpolate as _si  # pylint: disable=wrong-import-position


def _F(x):
  import fractions
  return fractions.Fraction(repr(float(x)))


def interp1d_model(s, f, x):
  if getattr(f, '_kind', None) != 'linear' or f._y.ndim != 2 or (
      f._y.shape[1] != 1):
    raise Unsupported(f'interp1d of kind {getattr(f, "_kind", None)}')
  xs, ys = [_F(q) for q in f.x], [_F(q) for q in f._y[:, 0]]
  x = num(x)
  if not f._extrapolate:
    if f.bounds_error:
      if x < xs[0] or x > xs[-1]:
        raise ValueError('A value in x_new is outside the interpolation range')
    else:
      if x < xs[0]:
        return num(float(np.ravel(f._fill_value_below)[0]))
      if x > xs[-1]:
        return num(float(np.ravel(f._fill_value_above)[0]))
  i = _cell(xs, x)
  sl = (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])
  return (x - xs[i]) * sl + ys[i]


def interp2d_model(s, f, x, y, dx=0, dy=0, assume_sorted=False):
  tx, ty, c, kx, ky = f.tck
  if kx != 1 or ky != 1 or dx or dy or f.bounds_error or (
      f.fill_value is not None):
    raise Unsupported('interp2d variant')
  xs = [_F(round(float(q), 12)) for q in tx[1:-1]]
  ys = [_F(round(float(q), 12)) for q in ty[1:-1]]
  nx, ny = len(xs), len(ys)
  z = [[_F(round(float(c[i * ny + j]), 12)) for j in range(ny)]
       for i in range(nx)]

  def clamp(v_, g):
    v_ = num(v_)
    if v_ <= g[0]:
      return num(g[0]), 0
    if v_ >= g[-1]:
      return num(g[-1]), len(g) - 2
    return v_, _cell(g, v_)
  x, i = clamp(x, xs)
  y, j = clamp(y, ys)
  tx_ = (x - xs[i]) / (xs[i + 1] - xs[i])
  ty_ = (y - ys[j]) / (ys[j + 1] - ys[j])
  lo = z[i][j] + (z[i + 1][j] - z[i][j]) * tx_
  hi = z[i][j + 1] + (z[i + 1][j + 1] - z[i][j + 1]) * tx_
  return lo + (hi - lo) * ty_


runtime.TYPEMODELS[_si.interp1d] = interp1d_model
if hasattr(_si, 'interp2d'):
  runtime.TYPEMODELS[_si.interp2d] = interp2d_model


# memoisation does not change the value of a deterministic function; keys here
# may be symbolic
def _lru(s, *a, **k):
  if a and callable(a[0]):
    return a[0]
  return lambda f: f


import functools as _ft  # pylint: disable=wrong-import-position
A[_ft.lru_cache] = _lru
A[_ft.cache] = _lru


# s2sphere.sphere.drem(x, y): x minus the nearest multiple of y
from s2sphere import sphere as _sph  # pylint: disable=wrong-import-position


@model(_sph.drem)
def _drem(s, x, y):
  n = s.fresh('turns', 'int')
  r = num(x) - n * y
  s.axiom(r >= -y / 2)
  s.axiom(r <= y / 2)
  return r

# -- logging has no effect on values
import logging as _pylogging  # pylint: disable=g-import-not-at-top
from absl import logging as _absl  # pylint: disable=g-import-not-at-top
for _m in (_absl, _pylogging):
  for _n in ('debug', 'info', 'warning', 'warn', 'error', 'log'):
    if hasattr(_m, _n):
      A[getattr(_m, _n)] = lambda s, *a, **k: None

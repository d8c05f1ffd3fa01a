"""Symbolic values.  Numbers are mathematical: ints are Int, floats are Real."""
import datetime as dt
import fractions
import numbers
import operator

import numpy as np
import z3

from pyver import runtime


class Stop(BaseException):
  """Base of the engine's control flow (not catchable by `except Exception`)."""


class PathEnd(Stop):
  pass


class Infeasible(Stop):
  pass


class Unsupported(Stop):
  pass


class BoundHit(Stop):
  """A loop without contract was unrolled up to the stated bound."""


def session():
  s = runtime.SESSION
  if s is None:
    raise Unsupported('symbolic value used outside a session')
  return s


def ratval(x):
  """A concrete number as an exact z3 numeral (floats: as their decimals)."""
  if isinstance(x, (bool, np.bool_)):
    return z3.IntVal(int(x))
  if isinstance(x, (int, np.integer)):
    return z3.IntVal(int(x))
  if isinstance(x, fractions.Fraction):
    return z3.Q(x.numerator, x.denominator)
  if isinstance(x, (float, np.floating)):
    if x != x or x in (float('inf'), float('-inf')):
      raise Unsupported('non-finite float in symbolic arithmetic')
    f = fractions.Fraction(repr(float(x)))
    return z3.Q(f.numerator, f.denominator)
  raise TypeError(type(x))


def is_num(x):
  return isinstance(x, (int, float, np.integer, np.floating,
                        fractions.Fraction)) and not isinstance(x, SNum)


def lift(x):
  """SNum | number -> z3 expr, or None."""
  if isinstance(x, SNum):
    return x.e
  if isinstance(x, SBool):
    return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
  if is_num(x) or isinstance(x, (bool, np.bool_)):
    return ratval(x)
  if isinstance(x, np.ndarray) and x.ndim == 0:
    return lift(x.item())
  return None


def issym(x):
  return isinstance(x, (SNum, SBool, SDelta, SDatetime, SRange, SEnum))


def toreal(e):
  return z3.ToReal(e) if e.is_int() else e


def same_sort(a, b):
  if a.is_int() and b.is_int():
    return a, b
  return toreal(a), toreal(b)


def zbool(x):
  if isinstance(x, SBool):
    return x.e
  if isinstance(x, (bool, np.bool_)):
    return z3.BoolVal(bool(x))
  if isinstance(x, z3.BoolRef):
    return x
  if isinstance(x, SNum):
    return x.e != 0
  return z3.BoolVal(bool(x))


_PICKLED = []


def _unpickled(i):
  return _PICKLED[i]


class Pickled:
  """Symbolic values survive pickling within this process."""
  __slots__ = ()

  def __reduce__(self):
    _PICKLED.append(self)
    return _unpickled, (len(_PICKLED) - 1,)


class SBool(Pickled):
  __array_ufunc__ = None
  __slots__ = ('e',)

  def __init__(self, e):
    self.e = e

  def __bool__(self):
    return session().decide(self.e)

  def __and__(self, o):
    return SBool(z3.And(self.e, zbool(o)))

  __rand__ = __and__

  def __or__(self, o):
    return SBool(z3.Or(self.e, zbool(o)))

  __ror__ = __or__

  def __invert__(self):
    return SBool(z3.Not(self.e))

  def __xor__(self, o):
    return SBool(z3.Xor(self.e, zbool(o)))

  __rxor__ = __xor__

  def __eq__(self, o):
    if isinstance(o, (SBool, bool, np.bool_)):
      return SBool(self.e == zbool(o))
    l = lift(o)
    if l is not None:
      return SNum(lift(self)) == o
    return NotImplemented

  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else SBool(z3.Not(r.e))

  def _num(self):
    return SNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

  def __add__(self, o):
    return self._num() + o

  __radd__ = __add__

  def __mul__(self, o):
    return self._num() * o

  __rmul__ = __mul__

  def __sub__(self, o):
    return self._num() - o

  def __rsub__(self, o):
    return o - self._num()

  def __hash__(self):
    raise Unsupported('hash of a symbolic bool')

  def __int__(self):
    return 1 if bool(self) else 0

  def __float__(self):
    return 1.0 if bool(self) else 0.0

  def any(self, *a, **k):
    return self

  def all(self, *a, **k):
    return self

  def item(self):
    return self

  def __repr__(self):
    return f'<SBool {str(self.e)[:60]}>'


def _arr(fn, a, b):
  out = np.empty(b.shape, dtype=object)
  for ix in np.ndindex(b.shape):
    out[ix] = fn(a, b[ix])
  return out


def _bin(fn):
  def op(self, o):
    if isinstance(o, np.ndarray) and o.ndim:
      return _arr(lambda a, b: op(a, b), self, o)
    l = lift(o)
    if l is None:
      return NotImplemented
    return fn(self.e, l)

  return op


def _rbin(fn):
  def op(self, o):
    if isinstance(o, np.ndarray) and o.ndim:
      return _arr(lambda a, b: op(a, b), self, o)
    l = lift(o)
    if l is None:
      return NotImplemented
    return fn(l, self.e)

  return op


def _simp(e):
  return e


def z_add(a, b):
  a, b = same_sort(a, b)
  return SNum(a + b)


def z_sub(a, b):
  a, b = same_sort(a, b)
  return SNum(a - b)


def z_mul(a, b):
  a, b = same_sort(a, b)
  return SNum(a * b)


def _check_zero(b):
  s = session()
  if z3.is_rational_value(b) or z3.is_int_value(b):
    if z3.is_true(z3.simplify(b == 0)):
      raise ZeroDivisionError('division by zero')
    return
  if s.decide(b == 0):
    raise ZeroDivisionError('division by zero (symbolic)')


def z_div(a, b):
  _check_zero(b)
  a, b = toreal(a), toreal(b)
  return SNum(a / b)


def z_floordiv(a, b):
  _check_zero(b)
  if a.is_int() and b.is_int():
    if z3.is_int_value(b) and b.as_long() > 0:
      return SNum(a / b)
    q = a / b      # Euclidean; adjust for negative divisors
    return SNum(z3.If(b > 0, q, z3.If(a % b == 0, q, q - 1)))
  return SNum(z3.ToReal(z3.ToInt(toreal(a) / toreal(b))))


def z_mod(a, b):
  _check_zero(b)
  if a.is_int() and b.is_int():
    if z3.is_int_value(b) and b.as_long() > 0:
      return SNum(a % b)
    return SNum(a - b * z_floordiv(a, b).e)
  a, b = toreal(a), toreal(b)
  return SNum(a - b * z3.ToReal(z3.ToInt(a / b)))


def z_pow(a, b):
  sb = z3.simplify(b)
  s = session()
  if z3.is_int_value(sb) or (z3.is_rational_value(sb) and
                             sb.denominator_as_long() == 1):
    n = sb.as_long() if z3.is_int_value(sb) else sb.numerator_as_long()
    if 0 <= n <= 8:
      r = z3.IntVal(1) if a.is_int() else z3.RealVal(1)
      for _ in range(n):
        r = r * a
      if z3.is_rational_value(sb) and a.is_int():
        r = z3.ToReal(r)
      return SNum(r)
    if -4 <= n < 0:
      return z_div(z3.RealVal(1), z_pow(a, z3.IntVal(-n)).e)
  if z3.is_rational_value(sb) and sb.as_fraction() == fractions.Fraction(1, 2):
    return s.fn_sqrt(SNum(a))
  if z3.is_rational_value(sb):
    # 1/3, 2/3, 1/12 ...: the fraction whose double this is
    f = sb.as_fraction()
    g = f.limit_denominator(100)
    if g != f and float(g) == float(f):
      sb = z3.Q(g.numerator, g.denominator)
  return s.fn_pow(SNum(toreal(a)), SNum(toreal(sb)))


def _cmp(op):
  def f(self, o):
    if isinstance(o, np.ndarray) and o.ndim:
      return _arr(lambda a, b: f(a, b), self, o)
    if isinstance(o, (float, np.floating)) and not np.isfinite(o):
      if o != o:
        return op is operator.ne
      big = 1 if o > 0 else -1
      return bool(op(0, big))
    l = lift(o)
    if l is None:
      return NotImplemented
    a, b = same_sort(self.e, l)
    return SBool(op(a, b))

  return f


class SNum(Pickled):
  """A symbolic number (z3 Int or Real)."""
  __array_ufunc__ = None
  __slots__ = ('e', 'dtype_')

  def __init__(self, e):
    self.e = e

  __add__ = _bin(z_add)
  __radd__ = _rbin(z_add)
  __sub__ = _bin(z_sub)
  __rsub__ = _rbin(z_sub)
  _mul = _bin(z_mul)
  _rmul = _rbin(z_mul)

  def __mul__(self, o):
    if isinstance(o, dt.timedelta):
      return SDelta(self * secs(o))
    return self._mul(o)

  def __rmul__(self, o):
    if isinstance(o, dt.timedelta):
      return SDelta(self * secs(o))
    return self._rmul(o)

  __truediv__ = _bin(z_div)
  _rtruediv = _rbin(z_div)

  def __rtruediv__(self, o):
    if isinstance(o, dt.timedelta):
      return SDelta(SNum(ratval(secs(o))) / self)
    return self._rtruediv(o)

  __floordiv__ = _bin(z_floordiv)
  __rfloordiv__ = _rbin(z_floordiv)
  __mod__ = _bin(z_mod)
  __rmod__ = _rbin(z_mod)
  __pow__ = _bin(z_pow)
  __rpow__ = _rbin(z_pow)

  def __divmod__(self, o):
    return self // o, self % o

  def __neg__(self):
    return SNum(-self.e)

  def __pos__(self):
    return self

  def __abs__(self):
    return SNum(z3.If(self.e >= 0, self.e, -self.e))

  __lt__ = _cmp(operator.lt)
  __le__ = _cmp(operator.le)
  __gt__ = _cmp(operator.gt)
  __ge__ = _cmp(operator.ge)
  __eq__ = _cmp(operator.eq)
  __ne__ = _cmp(operator.ne)

  def __bool__(self):
    return session().decide(self.e != 0)

  def __hash__(self):
    raise Unsupported('hash of a symbolic number')

  def __float__(self):
    c = session().concrete(self)
    if c is not None:
      return float(c)
    raise Unsupported('float() of a symbolic number inside native code')

  def __int__(self):
    c = session().concrete(self)
    if c is not None:
      return int(c)
    raise Unsupported('int() of a symbolic number inside native code')

  def __index__(self):
    c = session().concrete(self)
    if c is not None and c.denominator == 1:
      return int(c)
    raise Unsupported('__index__ of a symbolic number')

  def __round__(self, n=None):
    raise Unsupported('round of a symbolic number')

  def __floor__(self):
    return SNum(self.e if self.e.is_int() else z3.ToInt(self.e))

  def __ceil__(self):
    return SNum(self.e if self.e.is_int() else -z3.ToInt(-self.e))

  def __trunc__(self):
    return s_trunc(self)

  def item(self):
    return self

  def astype(self, t=None, *a, **k):
    return self

  def ravel(self):
    return self

  @property
  def dtype(self):
    return np.dtype(object)

  @property
  def shape(self):
    return ()

  @property
  def ndim(self):
    return 0

  @property
  def T(self):
    return self

  @property
  def real(self):
    return self

  def conjugate(self):
    return self

  # numpy object-array ufuncs call methods of these names
  def sqrt(self):
    return session().fn_sqrt(self)

  def exp(self):
    return session().fn('exp', self)

  def log(self):
    return session().fn('log', self)

  def sin(self):
    return session().fn('sin', self)

  def cos(self):
    return session().fn('cos', self)

  def tan(self):
    return session().fn('tan', self)

  def arctan2(self, o):
    return session().fn('atan2', self, o)

  def __format__(self, spec):
    return '<sym>'

  def __repr__(self):
    return f'<SNum {str(self.e)[:80]}>'

  def is_integer(self):
    return SBool(z3.IsInt(toreal(self.e)))

  def __copy__(self):
    return self

  def __deepcopy__(self, memo):
    return self


def s_trunc(x):
  if x.e.is_int():
    return x
  return SNum(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))


def s_min(a, b):
  la, lb = lift(a), lift(b)
  x, y = same_sort(la, lb)
  return SNum(z3.If(y < x, y, x))


def s_max(a, b):
  la, lb = lift(a), lift(b)
  x, y = same_sort(la, lb)
  return SNum(z3.If(y > x, y, x))


def s_ite(c, a, b):
  if isinstance(c, (bool, np.bool_)):
    return a if c else b
  if isinstance(a, (SBool, bool, np.bool_)) and isinstance(
      b, (SBool, bool, np.bool_)):
    return SBool(z3.If(zbool(c), zbool(a), zbool(b)))
  x, y = same_sort(lift(a), lift(b))
  return SNum(z3.If(zbool(c), x, y))


numbers.Real.register(SNum)


# -- time -----------------------------------------------------------------


def secs(x):
  """seconds of a timedelta | SDelta as SNum | number."""
  if isinstance(x, SDelta):
    return x.s
  if isinstance(x, dt.timedelta):
    return fractions.Fraction(
        (x.days * 86400 + x.seconds) * 1000000 + x.microseconds, 1000000)
  return None


class SDelta(Pickled):
  """A symbolic dt.timedelta: a real number of seconds.  mult = (n, base) if
  it was built as an integer multiple n of base."""
  __slots__ = ('s', 'mult')

  def __init__(self, s, mult=None):
    self.s = s if isinstance(s, SNum) else SNum(ratval(s))
    self.mult = mult

  def _times(self, s):
    """n if this is by construction n * s."""
    if isinstance(s, SNum) and bool(s != 0):
      if s.e.eq(self.s.e):
        return 1
      if self.mult is not None and self.mult[1].eq(s.e):
        return self.mult[0]
    return None

  def total_seconds(self):
    return SNum(toreal(self.s.e))

  @property
  def days(self):
    return SNum(z3.ToInt(toreal(self.s.e) / 86400))

  @property
  def seconds(self):
    return SNum(z3.ToInt(toreal(self.s.e)) - 86400 * self.days.e)

  @property
  def microseconds(self):
    e = toreal(self.s.e)
    return SNum(z3.ToInt((e - z3.ToReal(z3.ToInt(e))) * 1000000))

  def __add__(self, o):
    s = secs(o)
    if s is not None:
      return SDelta(self.s + s)
    if isinstance(o, dt.datetime):
      return SDatetime.of(o) + self
    return NotImplemented

  __radd__ = __add__

  def __sub__(self, o):
    s = secs(o)
    return NotImplemented if s is None else SDelta(self.s - s)

  def __rsub__(self, o):
    s = secs(o)
    if s is not None:
      return SDelta(s - self.s)
    if isinstance(o, dt.datetime):
      return SDatetime.of(o) - self
    return NotImplemented

  def __mul__(self, o):
    if lift(o) is None:
      return NotImplemented
    return SDelta(self.s * o, (o, self.s.e) if isinstance(
        o, int) or isinstance(o, SNum) and o.e.is_int() else None)

  __rmul__ = __mul__

  def __truediv__(self, o):
    s = secs(o)
    if s is not None:
      return SNum(toreal(self.s.e)) / s
    if lift(o) is None:
      return NotImplemented
    return SDelta(self.s / o)

  def __rtruediv__(self, o):
    s = secs(o)
    return NotImplemented if s is None else s / SNum(toreal(self.s.e))

  def __floordiv__(self, o):
    s = secs(o)
    if s is None:
      return NotImplemented
    n = self._times(s)
    return SNum(z3.ToInt((SNum(toreal(self.s.e)) / s).e)) if n is None else n

  def __rfloordiv__(self, o):
    s = secs(o)
    if s is None:
      return NotImplemented
    return SNum(z3.ToInt((s / SNum(toreal(self.s.e))).e))

  def __mod__(self, o):
    s = secs(o)
    if s is None:
      return NotImplemented
    if self._times(s) is not None:
      return SDelta(SNum(ratval(0)))
    return SDelta(self.s - s * (self // o))

  def __rmod__(self, o):
    return SDelta(secs(o)) % self

  def __neg__(self):
    return SDelta(-self.s)

  def __pos__(self):
    return self

  def __abs__(self):
    return SDelta(abs(self.s))

  def __bool__(self):
    return bool(self.s != 0)

  def _c(op):
    def f(self, o):
      s = secs(o)
      return NotImplemented if s is None else op(self.s, s)
    return f

  __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = map(_c, (
      operator.lt, operator.le, operator.gt, operator.ge, operator.eq,
      operator.ne))

  def __hash__(self):
    raise Unsupported('hash of a symbolic timedelta')

  def __deepcopy__(self, memo):
    return self

  def __repr__(self):
    return f'<SDelta {self.s!r}>'


EPOCH = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)


class SZone(dt.tzinfo):
  """A time zone a symbolic number of seconds ahead of UTC."""

  def __init__(self, offset):
    self.offset = offset

  def utcoffset(self, when):
    return SDelta(self.offset)

  def dst(self, when):
    return dt.timedelta()


class SDatetime(Pickled):
  """A symbolic timezone-aware datetime: a real number of seconds since 1970."""
  __slots__ = ('t', 'tzinfo')

  def __init__(self, t, tzinfo=dt.timezone.utc):
    self.t = t if isinstance(t, SNum) else SNum(ratval(t))
    self.tzinfo = tzinfo

  @classmethod
  def of(cls, d):
    if isinstance(d, SDatetime):
      return d
    if d.tzinfo is None:
      raise Unsupported('naive datetime in symbolic arithmetic')
    return cls(SNum(ratval(secs(d - EPOCH))), d.tzinfo)

  def timestamp(self):
    return SNum(toreal(self.t.e))

  def utcoffset(self):
    o = self._off
    return dt.timedelta() if isinstance(o, int) and o == 0 else SDelta(SNum(o))

  def astimezone(self, tz=None):
    if tz is None:
      raise Unsupported('the local time zone of the machine')
    return SDatetime(self.t, tz)

  @property
  def _off(self):
    """Seconds ahead of UTC."""
    if self.tzinfo is None or self.tzinfo is dt.timezone.utc:
      return 0
    if isinstance(self.tzinfo, SZone):
      return toreal(self.tzinfo.offset.e)
    o = self.tzinfo.utcoffset(None)
    if o is None:
      raise Unsupported('a time zone with daylight saving')
    return ratval(fractions.Fraction(o // dt.timedelta(microseconds=1),
                                     10**6)) if o else 0

  @property
  def _local(self):
    o = self._off
    e = toreal(self.t.e)
    return e if isinstance(o, int) and o == 0 else e + o

  def __add__(self, o):
    s = secs(o)
    return NotImplemented if s is None else SDatetime(self.t + s, self.tzinfo)

  __radd__ = __add__

  def __sub__(self, o):
    s = secs(o)
    if s is not None:
      return SDatetime(self.t - s, self.tzinfo)
    if isinstance(o, (SDatetime, dt.datetime)):
      return SDelta(self.t - SDatetime.of(o).t)
    return NotImplemented

  def __rsub__(self, o):
    if isinstance(o, dt.datetime):
      return SDelta(SDatetime.of(o).t - self.t)
    return NotImplemented

  def _c(op):
    def f(self, o):
      if not isinstance(o, (SDatetime, dt.datetime)):
        return NotImplemented
      return op(self.t, SDatetime.of(o).t)
    return f

  __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = map(_c, (
      operator.lt, operator.le, operator.gt, operator.ge, operator.eq,
      operator.ne))

  # civil fields (UTC): days since the epoch and second of the day are exact;
  # the calendar date is an uninterpreted function of the day number.
  @property
  def _day(self):
    return z3.ToInt(self._local / 86400)

  @property
  def _sod(self):
    return self._local - 86400 * z3.ToReal(self._day)

  @property
  def hour(self):
    return SNum(z3.ToInt(self._sod / 3600))

  @property
  def minute(self):
    return SNum(z3.ToInt(self._sod / 60) - 60 * self.hour.e)

  @property
  def second(self):
    return SNum(z3.ToInt(self._sod) - 60 * z3.ToInt(self._sod / 60))

  @property
  def microsecond(self):
    s = self._sod
    return SNum(z3.ToInt((s - z3.ToReal(z3.ToInt(s))) * 1000000))

  def _civil(self, n):
    """Proleptic Gregorian calendar: the unique (y, m, d) of this day."""
    s = session()
    day = SNum(self._day)
    n0 = len(s.apps.get('date_year', []))
    y, m, d = (s.uf_int('date_' + q, day) for q in ('year', 'month', 'day'))
    if len(s.apps['date_year']) > n0 and s.calendar:
      y, m, d = y.e, m.e, d.e
      s.axiom(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= 31))
      z = z3.If(m <= 2, y - 1, y)              # years start in March
      mp = z3.If(m <= 2, m + 9, m - 3)
      s.axiom(day.e == 365 * z + z / 4 - z / 100 + z / 400 + (
          153 * mp + 2) / 5 + d - 1 - 719468)
    return s.uf_int('date_' + n, day)

  @property
  def year(self):
    return self._civil('year')

  @property
  def month(self):
    return self._civil('month')

  @property
  def day(self):
    return self._civil('day')

  def __hash__(self):
    raise Unsupported('hash of a symbolic datetime')

  def __deepcopy__(self, memo):
    return self

  def __format__(self, spec):
    return '<symdatetime>'

  def __repr__(self):
    return f'<SDatetime {self.t!r}>'


class SRange:
  """range(a, b, c) with a symbolic bound."""

  def __init__(self, start, stop, step=1):
    self.start, self.stop, self.step = start, stop, step

  def __iter__(self):
    raise Unsupported('iteration over a symbolic range without loop contract')

  def __len__(self):
    raise Unsupported('len of a symbolic range')


class SEnum:
  pass

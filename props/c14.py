"""C14 unit-aware quantities."""
import operator

from props.common import *
from pyver.spec import unit

D, VEL, EN, PW = units.Distance, units.Velocity, units.Energy, units.Power
FT = 0.3048


def mag(V, q):
  """Magnitude of a quantity in its base unit, by its public getters."""
  if isinstance(q, D):
    return q.m
  if isinstance(q, VEL):
    return q.mps
  if isinstance(q, EN):
    return q.watt_hours
  if isinstance(q, PW):
    return q.watts
  if V.is_delta(q):
    return V.secs(q)
  return q


def mk(V, kind, name, **k):
  if kind is dt.timedelta:
    return V.delta(name, -1e7, 1e7)
  x = V.real(name, -1e7, 1e7, pts=[0, 1], **k)
  return {D: lambda: D(m=x), VEL: lambda: VEL(mps=x),
          EN: lambda: EN(watt_hours=x), PW: lambda: PW(watts=x),
          float: lambda: x}[kind]()


def same(V, name, q, kind, value):
  V.prove(f'{name}: kind', isinstance(q, kind) if kind is not float else
          not isinstance(q, (D, VEL, EN, PW)))
  V.prove(f'{name}: value', V.eq(mag(V, q), value))


@unit(con_max=300)
def constructors_and_getters(V):
  """Every constructor keyword adds up; every getter reads the same value."""
  a, b, c, d, e = [V.real(n, -1e6, 1e6, pts=[0]) for n in (
      'm', 'meters', 'km', 'kilometers', 'feet')]
  x = D(m=a, meters=b, km=c, kilometers=d, feet=e)
  tot = a + b + 1000 * (c + d) + FT * e
  V.prove('Distance.m', V.eq(x.m, tot))
  V.prove('Distance.meters', V.eq(x.meters, tot))
  V.prove('Distance.km', V.eq(x.km, tot / 1000))
  V.prove('Distance.kilometers', V.eq(x.kilometers, tot / 1000))
  V.prove('Distance.feet', V.eq(x.feet, tot / FT))
  V.prove('feet read back', V.eq(D(feet=e).feet, e))
  V.prove('km read back', V.eq(D(km=e).km, e))
  v = VEL(mps=a, meters_per_second=b, kmph=c, kilometers_per_hour=d)
  tot = a + b + (c + d) / 3.6
  V.prove('Velocity.mps', V.eq(v.mps, tot))
  V.prove('Velocity.meters_per_second', V.eq(v.meters_per_second, tot))
  V.prove('Velocity.kmph', V.eq(v.kmph, tot * 3.6))
  V.prove('Velocity.kilometers_per_hour', V.eq(v.kilometers_per_hour,
                                               tot * 3.6))
  V.prove('Energy.watt_hours', V.eq(EN(watt_hours=a).watt_hours, a))
  V.prove('Power.watts', V.eq(PW(watts=a).watts, a))
  V.prove('defaults are zero', V.And(
      V.eq(D().m, 0), V.eq(VEL().mps, 0), V.eq(EN().watt_hours, 0),
      V.eq(PW().watts, 0)))


@unit(con_max=400)
def add_and_subtract(V):
  """Like quantities add and subtract by magnitude; operands unchanged."""
  kind = V.choice('kind', [D, VEL, EN, PW])
  a, b = mk(V, kind, 'a'), mk(V, kind, 'b')
  x, y = mag(V, a), mag(V, b)
  same(V, 'a+b', a + b, kind, x + y)
  same(V, 'a-b', a - b, kind, x - y)
  V.prove('operands unchanged', V.And(V.eq(mag(V, a), x), V.eq(mag(V, b), y)))


@unit(con_max=600)
def products_and_quotients(V):
  """The cross-unit products and quotients."""
  case = V.choice('case', [
      (D, float, 'mul', D, 1), (float, D, 'mul', D, 1),
      (VEL, dt.timedelta, 'mul', D, 1), (dt.timedelta, VEL, 'mul', D, 1),
      (EN, float, 'mul', EN, 1), (float, EN, 'mul', EN, 1),
      (PW, dt.timedelta, 'mul', EN, 1 / 3600),
      (dt.timedelta, PW, 'mul', EN, 1 / 3600),
      (D, float, 'truediv', D, 1), (D, dt.timedelta, 'truediv', VEL, 1),
      (D, D, 'truediv', float, 1), (VEL, float, 'truediv', VEL, 1),
      (EN, EN, 'truediv', float, 1)])
  ka, kb, op, kr, _ = case
  a, b = mk(V, ka, 'a'), mk(V, kb, 'b')
  x, y = mag(V, a), mag(V, b)
  if op == 'truediv':
    V.assume(V.Or(y > 1e-3, y < -1e-3))
    want = x / y
  else:
    want = x * y
  r = getattr(operator, op)(a, b)
  if PW in (ka, kb):
    V.prove('power times time: kind', isinstance(r, EN))
    V.prove('power times time: value', V.eq(mag(V, r) * 3600, want))
  else:
    same(V, f'{ka.__name__} {op} {kb.__name__}', r, kr, want)


@unit(con_max=300)
def integer_factors(V):
  """Whole-number factors behave like the equal real factor."""
  n = V.int('n', 1, 1000)
  x = V.real('x', -1e6, 1e6)
  same(V, 'Distance*int', D(m=x) * n, D, x * n)
  same(V, 'Distance/int', D(m=x) / n, D, x / n)
  same(V, 'Velocity/int', VEL(mps=x) / n, VEL, x / n)
  same(V, 'Energy*int', EN(watt_hours=x) * n, EN, x * n)


@unit(con_max=800)
def comparisons(V):
  """Ordering by magnitude; equality exact or within 1e-9."""
  kind, op = V.choice('case', [
      (k, o) for k, os_ in ((D, ('lt', 'le', 'gt', 'ge', 'eq', 'ne')),
                            (VEL, ('eq', 'ne')),
                            (EN, ('lt', 'le', 'gt', 'ge', 'eq', 'ne')),
                            (PW, ('lt', 'gt', 'eq', 'ne'))) for o in os_])
  a, b = mk(V, kind, 'a'), mk(V, kind, 'b')
  x = mag(V, a)
  if V.concrete_mode:
    d = V.choice('how', [None, 0.0, 5e-10, -5e-10, 2e-9, -2e-9, 1e-3])
    if d is not None and 'b' not in V.forced:
      b = type(b)(**{{D: 'm', VEL: 'mps', EN: 'watt_hours', PW: 'watts'}[
          kind]: x + d})
  y = mag(V, b)
  r = getattr(operator, op)(a, b)
  if op in ('eq', 'ne'):
    want = (V.And(x - y < 1e-9, y - x < 1e-9) if kind in (D, VEL) else x == y)
    if op == 'ne':
      want = V.Not(want)
  else:
    want = getattr(operator, op)(x, y)
  V.prove(f'{kind.__name__} {op}', V.Iff(r, want))


MIXED = []
for _a in (D, VEL, EN, PW, float, dt.timedelta):
  for _b in (D, VEL, EN, PW, float, dt.timedelta):
    if _a is _b or {_a, _b} <= {float, dt.timedelta}:
      continue
    for _o in ('add', 'sub', 'mul', 'truediv', 'lt', 'le', 'gt', 'ge', 'eq'):
      if (_a, _b, _o) in {
          (D, float, 'mul'), (float, D, 'mul'), (VEL, dt.timedelta, 'mul'),
          (dt.timedelta, VEL, 'mul'), (EN, float, 'mul'), (float, EN, 'mul'),
          (PW, dt.timedelta, 'mul'), (dt.timedelta, PW, 'mul'),
          (D, float, 'truediv'), (D, dt.timedelta, 'truediv'),
          (VEL, float, 'truediv')}:
        continue
      MIXED.append((_a, _b, _o))
for _a, _o in ((D, 'mul'), (VEL, 'mul'), (EN, 'mul'), (PW, 'mul')):
  MIXED.append((_a, _a, _o))


@unit(con_max=800, max_paths=2000)
def incompatible_operands_are_refused(V):
  """Any other pairing raises, whatever the magnitudes."""
  ka, kb, op = V.choice('case', MIXED)

  def val(k, name):
    if k is float:
      return V.choice('number', [2.5, 0.0, 1, True])
    if k is dt.timedelta:
      return dt.timedelta(seconds=V.choice('seconds', [90, 0]))
    return mk(V, k, name)
  a, b = val(ka, 'a'), val(kb, 'b')
  kind, r = V.run(getattr(operator, op), a, b)
  V.prove(f'{ka.__name__} {op} {kb.__name__} is refused', kind == 'raise')


@unit(con_max=300)
def helpers(V):
  """Conversions used across the simulator."""
  x, y = V.real('x', -1e6, 1e6, pts=[0]), V.real('y', -1e6, 1e6, pts=[0])
  V.prove('111 km per degree', V.eq(
      V.call(units.distance_to_degrees, D(m=x)) * 111000, x))
  V.prove('seconds to hours', V.eq(V.call(units.seconds_to_hours, x) * 3600,
                                   x))
  d = V.delta('d', -1e6, 1e6)
  V.prove('timedelta to hours', V.eq(
      V.call(units.timedelta_to_hours, d) * 3600, V.secs(d)))
  r = V.call(units.relative_distance, D(m=x), D(m=y))
  V.prove('relative distance is the Euclidean norm', V.And(
      isinstance(r, D), V.ge0(r.m), V.eq(r.m * r.m, x * x + y * y)))


@unit(con_max=300)
def clock_helpers(V):
  """Datetimes default to UTC and timestamps round trip."""
  n = V.int('timestamp', 0, 4 * 10**9)
  t = V.call(units.datetime_from_timestamp, n)
  V.prove('timestamp read back', V.eq(V.timestamp(t), n))
  V.prove('time zone is UTC', t.tzinfo == UTC)
  y, m = V.choice('ym', [(2011, 1), (2020, 2), (2024, 12)])
  q = V.call(units.datetime, y, m, 3, 4, 5, 6, 7)
  fold = V.choice('fold', [0, 1])
  zone = V.choice('zone', [UTC, dt.timezone(dt.timedelta(hours=5))])
  z = V.call(units.datetime, y, m, 3, 4, 5, 6, 7, zone, fold=fold)
  V.prove('in the given zone', z == dt.datetime(
      y, m, 3, 4, 5, 6, 7, tzinfo=zone) and z.utcoffset() ==
          zone.utcoffset(None) and z.fold == fold)
  d = V.call(units.datetime, y, m, 3)
  V.prove('midnight unless given', d == dt.datetime(y, m, 3, tzinfo=UTC) and
          d.tzinfo == UTC and d.fold == 0)
  n = V.call(units.datetime, y, m, 3, tzinfo=None)
  V.prove('no zone is UTC', n.tzinfo == UTC and n == d)
  V.prove('datetime() is UTC by default', q == dt.datetime(
      y, m, 3, 4, 5, 6, 7, tzinfo=UTC) and q.tzinfo == UTC)

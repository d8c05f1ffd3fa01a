"""Engine sanity: true facts are proved, false ones refuted (soundness smoke
test of the models against CPython on every setup)."""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from pyver import engine, models  # pylint: disable=unused-import


def run(body):
  s = engine.Session()
  s.explore(body)
  return s


def t1(V):
  x = V.real('x', 0, 10)
  r = V.dispatch(abs, (x - 5,), {})
  V.prove('abs bound', r <= 5)


def t2(V):
  x = V.real('x', 0, 10)
  V.prove('false claim', x < 10)


def t3(V):
  n = V.int('n', -20, 20)
  d = V.int('d', -5, 5)
  V.assume(d != 0)
  q, r = n // d, n % d
  V.prove('floor division', V.And(q * d + r == n, V.Or(
      V.And(d > 0, r >= 0, r < d), V.And(d < 0, r <= 0, r > d))))


s1, s2, s3 = run(t1), run(t2), run(t3)
assert all(o.status == 'proved' for o in s1.obligations) and s1.obligations
assert [o.status for o in s2.obligations] == ['refuted'], s2.obligations
assert s2.failed[0]['inputs']['x'] == 10.0
assert all(o.status == 'proved' for o in s3.obligations) and s3.obligations
print('selftest ok')

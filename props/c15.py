"""C15 feature transforms."""
from balloon_learning_environment.utils import transforms as tr
from props.common import *
from pyver.spec import unit

BIG = 1e6


def interval(V):
  lo = V.real('vmin', -BIG, BIG, pts=[0])
  hi = lo + V.real('width', 1e-3, BIG)
  return lo, hi


@unit()
def rescale(V):
  """Linear, sends the ends to 0 and 1, and is inverted by its inverse."""
  lo, hi = interval(V)
  x = V.real('x', -BIG, BIG)
  f = tr.linear_rescale_with_extrapolation
  y = f(x, lo, hi)
  V.prove('linear map of the interval', V.eq(y * (hi - lo), x - lo, 1e-6))
  V.prove('lower end', V.eq(f(lo, lo, hi), 0))
  V.prove('upper end', V.eq(f(hi, lo, hi), 1))
  back = tr.undo_linear_rescale_with_extrapolation(y, lo, hi)
  V.prove('inverse', V.eq(back, x, 1e-6))
  z = V.real('z', -10, 10)
  V.prove('inverse of the inverse', V.eq(f(
      tr.undo_linear_rescale_with_extrapolation(z, lo, hi), lo, hi), z, 1e-4))


@unit()
def saturation(V):
  """The same map clipped to [0, 1]; never decreasing."""
  lo, hi = interval(V)
  x = V.real('x', -2 * BIG, 2 * BIG)
  if V.concrete_mode and V.choice('inside', [True, False]):
    x = lo + (hi - lo) * V.real('part', -.5, 1.5, pts=[0, 1])
  y = tr.linear_rescale_with_saturation(x, lo, hi)
  V.prove('in [0, 1]', V.And(y >= 0, y <= 1))
  V.prove('0 below', V.Implies(x <= lo, V.eq(y, 0)))
  V.prove('1 above', V.Implies(x >= hi, V.eq(y, 1)))
  V.prove('linear inside', V.Implies(V.And(x >= lo, x <= hi), V.eq(
      y * (hi - lo), x - lo, 1e-6)))


@unit()
def rescale_refusals(V):
  """Empty and reversed intervals are refused."""
  lo, hi = V.real('vmin', -BIG, BIG), V.real('vmax', -BIG, BIG)
  if V.concrete_mode and V.choice('empty', [True, False]):
    hi = lo
  x = V.real('x', -BIG, BIG)
  f = V.choice('function', [tr.linear_rescale_with_extrapolation,
                            tr.undo_linear_rescale_with_extrapolation,
                            tr.linear_rescale_with_saturation])
  kind, e = V.run(f, x, lo, hi)
  V.prove('refused exactly if empty', V.Iff(kind == 'raise', hi <= lo))
  V.prove('documented error', kind == 'ok' or isinstance(e, ValueError))


@unit()
def squash(V):
  """Into [0, 1), increasing, the constant to one half, invertible."""
  c = V.real('constant', 1e-3, BIG)
  x = V.real('x', 0, BIG, pts=[0])
  y = tr.squash_to_unit_interval(x, c)
  V.prove('formula', V.eq(y * (x + c), x, 1e-6))
  V.prove('in [0, 1)', V.And(y >= 0, y < 1))
  V.prove('half at the constant', V.eq(tr.squash_to_unit_interval(c, c), .5))
  V.prove('zero at zero', V.eq(tr.squash_to_unit_interval(0.0, c), 0))
  more = tr.squash_to_unit_interval(x + V.real('more', 1e-3, BIG), c)
  V.prove('increasing', V.lt(y, more))
  if V.concrete_mode:
    V.assume(x < 1e4 * c)          # beyond, doubles cannot tell 1 - y from 0
  V.prove('inverse', V.eq(tr.undo_squash_to_unit_interval(y, c), x, 1e-6))


@unit()
def unsquash(V):
  """The inverse map itself."""
  c = V.real('constant', 1e-3, BIG)
  y = V.real('y', 0, .9999, pts=[0, .5])
  x = tr.undo_squash_to_unit_interval(y, c)
  V.prove('formula', V.eq(x * (1 - y), y * c, 1e-6))
  V.prove('never negative', x >= 0)
  V.prove('squash inverts it', V.eq(tr.squash_to_unit_interval(x, c), y, 1e-6))


@unit()
def squash_refusals(V):
  """Non-positive constants and values outside the domain are refused."""
  c = V.real('constant', -BIG, BIG, pts=[0, -1e-9])
  x = V.real('x', -BIG, BIG, pts=[0, -1e-9, -1e-5])
  kind, e = V.run(tr.squash_to_unit_interval, x, c)
  V.prove('squash refuses exactly these', V.Iff(kind == 'raise', V.Or(
      c <= 0, x < 0)))
  V.prove('documented error', kind == 'ok' or isinstance(e, ValueError))
  y = V.real('y', -2, 2, pts=[0, 1, -1e-9, 1 - 1e-12, 1 + 1e-12])
  kind, e = V.run(tr.undo_squash_to_unit_interval, y, c)
  V.prove('unsquash refuses exactly these', V.Iff(kind == 'raise', V.Or(
      c <= 0, y < 0, y >= 1)))
  V.prove('documented error (unsquash)', kind == 'ok' or isinstance(
      e, ValueError))


@unit()
def arrays(V):
  """Array inputs are transformed element by element."""
  n = V.choice('length', [1, 2, 3])
  lo, hi = interval(V)
  c = V.real('constant', 1e-3, BIG)
  a = np.array([V.real(f'a{i}', -BIG, BIG, pts=[0, -1e-9, -1e-5, 1, -1])
                for i in range(n)], dtype=None if V.concrete_mode else object)
  y = tr.linear_rescale_with_extrapolation(a, lo, hi)
  for i in range(n):
    V.prove('rescale elementwise', V.eq(
        y[i], tr.linear_rescale_with_extrapolation(a[i], lo, hi)))
  kind, y = V.run(tr.squash_to_unit_interval, a, c)
  V.prove('squash refuses arrays with a negative entry', V.Iff(
      kind == 'raise', V.Or(*[a[i] < 0 for i in range(n)])))
  if kind == 'ok':
    for i in range(n):
      V.prove('squash elementwise', V.eq(
          y[i], tr.squash_to_unit_interval(a[i], c)))

"""Registry of verification units.  A unit is one specification, written once
and run in two modes: symbolically (VCs, the deciding step) and concretely on
the untouched real code (replay of counterexamples, CPython cross-check)."""
UNITS = []


class Unit:

  def __init__(self, fn, uses=(), about='', bounded=None, only=None, **opts):
    self.fn, self.uses, self.opts = fn, uses, opts
    self.name = fn.__name__
    self.about = about or (fn.__doc__ or '').strip()
    self.bounded = bounded      # text of a declared bound: not counted as proved
    self.only = only            # 'concrete': bounded run-time stand-in only

  def __call__(self, V):
    return self.fn(V)


def unit(**kw):
  def deco(fn):
    u = Unit(fn, **kw)
    UNITS.append(u)
    return u
  return deco


def per_case(cases, **kw):
  """One unit per named case: fn(V, case)."""
  def deco(fn):
    for name, case in cases.items():
      def g(V, case=case):
        return fn(V, case)
      g.__name__ = f'{fn.__name__}_{name}'
      g.__doc__ = f'{fn.__doc__} [{name}]'
      UNITS.append(Unit(g, **kw))
    return fn
  return deco


def bounded_unit(bound, **kw):
  """A run-time contract check of code the verifier cannot reach."""
  def deco(fn):
    u = Unit(fn, bounded=bound, only='concrete', **kw)
    UNITS.append(u)
    return u
  return deco

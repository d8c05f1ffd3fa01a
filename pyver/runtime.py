"""Hooks the instrumented code calls.  Identity outside a session."""
import builtins
import operator

SESSION = None        # set by pyver.engine while a symbolic session runs
MODELS = {}           # callable -> model (used when an argument is symbolic)
ALWAYS = {}           # callable -> model used whenever a session runs
TYPEMODELS = {}       # type of a callable object -> model


def call(f, /, *a, **k):
  s = SESSION
  if s is None:
    return f(*a, **k)
  return s.dispatch(f, a, k)


def getitem(o, i):
  s = SESSION
  if s is None:
    return o[i]
  return s.getitem(o, i)


def iop(name, a, b):
  s = SESSION
  if s is not None:
    r = s.iop(getattr(operator, name), a, b)
    if r is not None:
      return r
  return getattr(operator, 'i' + name.rstrip('_'))(a, b)


def loop_enter(lid, it):
  s = SESSION
  if s is None:
    return None
  return s.loop_enter(lid, it)


def iterate(lid, it):
  s = SESSION
  if s is None:
    return it
  return s.iterate(lid, it)


def tick(lid):
  s = SESSION
  if s is not None:
    s.tick(lid)


def grab(th):
  try:
    return th()
  except (NameError, UnboundLocalError):
    return UNBOUND


class _Unbound:
  def __repr__(self):
    return '<unbound>'


UNBOUND = _Unbound()

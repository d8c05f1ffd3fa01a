"""Concrete mode: the same units on the real, uninstrumented code."""
import datetime as dt
import fractions
import math
import random
import traceback

import numpy as np


class Reject(BaseException):
  pass


class Failed(BaseException):

  def __init__(self, name, detail=''):
    self.name, self.detail = name, detail


UTC = dt.timezone.utc
EPOCH = dt.datetime(1970, 1, 1, tzinfo=UTC)
TOL = 1e-7


class Concrete:
  symbolic = False
  concrete_mode = True

  def __init__(self, rng, forced=None, jitter=0.0, turn=None):
    self.rng, self.forced, self.jitter = rng, dict(forced or {}), jitter
    self.turn, self.combinations = turn, 1
    self.values = {}
    self.names = {}
    self.patches = []
    self.checked = 0
    self.ghost = {}

  def _name(self, name):
    n = self.names.get(name, 0)
    self.names[name] = n + 1
    return name if n == 0 else f'{name}#{n}'

  # inputs
  def _draw_real(self, lo, hi, pts):
    r = self.rng
    pts = [float(p) for p in pts]
    cand = list(pts)
    if lo is not None:
      cand.append(float(lo))
    if hi is not None:
      cand.append(float(hi))
    q = r.random()
    if cand and q < .25:
      c = r.choice(cand)
      k = r.random()
      if k < .4:
        return c
      d = abs(c) if c else 1.0
      return c + r.choice([-1, 1]) * d * 10**r.uniform(-12, -1)
    if lo is not None and hi is not None:
      lo, hi = float(lo), float(hi)
      if q < .4 and hi > 0 and hi / max(lo, 1e-6 * hi) > 1e3:
        return math.exp(r.uniform(math.log(max(lo, 1e-6 * hi)), math.log(hi)))
      return r.uniform(lo, hi)
    base = lo if lo is not None else hi
    if base is not None:
      s = 1 if lo is not None else -1
      return base + s * 10**r.uniform(-6, 5)
    return r.choice([-1, 1]) * 10**r.uniform(-6, 5) if q < .9 else 0.0

  def real(self, name, lo=None, hi=None, pts=(), lo_open=False, hi_open=False):
    name = self._name(name)
    if name in self.forced:
      x = float(self.forced[name])
      if self.jitter and self.rng.random() < .5:
        x += self.rng.gauss(0, self.jitter) * max(1.0, abs(x))
    else:
      x = self._draw_real(lo, hi, pts)
    if lo is not None and (x < lo or (lo_open and x <= lo)):
      x = float(lo) if not lo_open else math.nextafter(float(lo), math.inf)
    if hi is not None and (x > hi or (hi_open and x >= hi)):
      x = float(hi) if not hi_open else math.nextafter(float(hi), -math.inf)
    self.values[name] = x
    return x

  def int(self, name, lo=None, hi=None, pts=(), small=None):
    name = self._name(name)
    if name in self.forced:
      x = int(self.forced[name])
    else:
      r = self.rng
      cand = [int(p) for p in pts] + [b for b in (lo, hi) if b is not None]
      q = r.random()
      top = small if small is not None else hi
      if cand and q < .25:
        x = r.choice(cand) + (r.choice([-1, 0, 1]) if r.random() < .3 else 0)
      elif lo is not None and top is not None:
        x = r.randint(lo, max(top, lo))
      else:
        b = lo if lo is not None else (hi if hi is not None else 0)
        m = int(10**r.uniform(0, 4))
        x = b + (m if lo is not None else -m if hi is not None else
                 r.choice([-1, 1]) * m)
    if lo is not None:
      x = max(x, lo)
    if hi is not None:
      x = min(x, hi)
    self.values[name] = x
    return x

  def bool(self, name):
    name = self._name(name)
    x = bool(self.forced[name]) if name in self.forced else (
        self.rng.random() < .5)
    self.values[name] = x
    return x

  def choice(self, name, options):
    name = self._name(name)
    i = (int(self.forced[name]) if name in self.forced
         else self._turn(len(options)))
    self.values[name] = i
    return options[i]

  def _turn(self, n):
    """The first choices go round their combinations, run by run."""
    k = self.combinations
    self.combinations *= n
    if self.turn is None or self.combinations > 24:
      return self.rng.randrange(n)
    return self.turn // k % n

  def delta(self, name, lo=None, hi=None, pts=()):
    return dt.timedelta(seconds=self.real(name, lo, hi, pts))

  def datetime(self, name, lo=None, hi=None):
    return EPOCH + dt.timedelta(seconds=round(self.real(name, lo, hi), 6))

  def in_zone(self, t, minutes):
    return t.astimezone(dt.timezone(dt.timedelta(minutes=int(minutes))))

  def array(self, name, n, lo=None, hi=None):
    return np.array([self.real(f'{name}[{i}]', lo, hi) for i in range(n)])

  def assume(self, c):
    if not bool(c):
      raise Reject()

  def prove(self, name, goal, info=None):
    self.checked += 1
    if not bool(np.all(goal)):
      raise Failed(name, info or '')

  def soft(self, name, goal):
    pass

  def axiom(self, c):
    pass

  # logic
  def And(self, *cs):
    return all(bool(c) for c in cs)

  def Or(self, *cs):
    return any(bool(c) for c in cs)

  def Not(self, c):
    return not bool(c)

  def Implies(self, a, b):
    return (not bool(a)) or bool(b)

  def Iff(self, a, b):
    return bool(a) == bool(b)

  def ite(self, c, a, b):
    return a if bool(c) else b

  def eq(self, a, b, tol=None):
    if isinstance(a, dt.timedelta) or isinstance(a, dt.datetime):
      d = a - b
      return abs(d.total_seconds()) <= (tol or 2e-6)
    try:
      a, b = float(a), float(b)
    except (TypeError, ValueError):
      return a == b
    t = TOL if tol is None else tol
    return abs(a - b) <= t * max(1.0, abs(a), abs(b))

  def near(self, a, b, tol):
    return abs(float(a) - float(b)) <= tol * 1.0000001 + 1e-12

  def le(self, a, b, tol=None):
    t = TOL if tol is None else tol
    return float(a) <= float(b) + t * max(1.0, abs(float(a)), abs(float(b)))

  def lt(self, a, b, tol=None):
    return self.le(a, b, tol)

  def min(self, a, b):
    return min(a, b)

  def max(self, a, b):
    return max(a, b)

  def floor(self, a):
    return math.floor(a)

  def secs(self, d):
    return d.total_seconds()

  def is_delta(self, x):
    return isinstance(x, dt.timedelta)

  def exact_secs(self, d):
    return fractions.Fraction(d // dt.timedelta(microseconds=1), 10**6)

  def exactly(self, a, b):
    return a == b

  def const(self, x):
    return x

  def exactify(self, *modules):
    pass

  def const_delta(self, secs):
    return dt.timedelta(seconds=secs)

  def whole(self, x):
    return float(x) == math.floor(x)

  def away(self, x, c, tol=1e-9):
    self.assume(abs(float(x) - float(c)) > tol * max(1.0, abs(float(c))))

  def ge0(self, x):
    return float(x) >= -1e-12

  def timestamp(self, t):
    return t.timestamp()

  def truth(self, c):
    return bool(c)

  def math(self, name, *args):
    return getattr(math, name)(*args)

  def _hash(self, name, args):
    """A smooth pseudo-random function of its arguments, in [0, 1]."""
    h = random.Random(name)
    a = h.uniform(0, 6)
    for x in args:
      x = float(x)
      x = x / (1 + abs(x) / 1e3)
      a += x * h.uniform(.3, .9) + 3 * math.sin(x * h.uniform(.01, .02))
    return .5 + .5 * math.sin(a)

  def fun(self, name, *args, lo=None, hi=None):
    u = self._hash(name, args)
    if lo is None:
      lo = -20.0 if hi is None else hi - 40.0
    if hi is None:
      hi = lo + 40.0
    return lo + (hi - lo) * u

  def fun_bool(self, name, *args):
    return self._hash(name, args) > .5

  # code
  def run(self, f, *a, **k):
    try:
      return 'ok', f(*a, **k)
    except Exception as e:  # pylint: disable=broad-except
      return 'raise', e

  def call(self, f, *a, **k):
    return f(*a, **k)

  def obj(self, cls, **attrs):
    o = object.__new__(cls)
    for n, x in attrs.items():
      object.__setattr__(o, n, x)
    return o

  def patch(self, owner, name, new):
    had = name in getattr(owner, '__dict__', {})
    self.patches.append((owner, name, getattr(owner, '__dict__', {}).get(
        name), had))
    setattr(owner, name, new)

  def restore_patches(self):
    while self.patches:
      owner, name, old, had = self.patches.pop()
      if had:
        setattr(owner, name, old)
      else:
        delattr(owner, name)

  def use(self, *contracts):
    pass

  def loop(self, *a, **k):
    pass

  def verify(self, c, *a, **k):
    owner, name, raw = c.resolve()
    args = c.bind(a, k)
    for nm, cond in (c.pre(self, args) or ()):
      self.assume(cond)
    if isinstance(raw, property):
      r = raw.fget(*a, **k)
    else:
      r = getattr(owner, name)(*a, **k)
    for nm, cond in (c.post(self, args, r) or ()):
      self.prove(f'{c.short}: {nm}', cond)
    return r


def run_once(u, rng, forced=None, jitter=0.0, turn=None):
  """-> None (held), 'reject', or a dict describing the violation."""
  V = Concrete(rng, forced, jitter, turn)
  try:
    u(V)
    return None, V
  except Reject:
    return 'reject', V
  except Failed as f:
    return dict(obligation=f.name, detail=str(f.detail), inputs=V.values), V
  except (KeyboardInterrupt, SystemExit):
    raise
  except Exception as e:  # pylint: disable=broad-except
    tb = traceback.extract_tb(e.__traceback__)
    where = [f'{f.filename}:{f.lineno} {f.name}' for f in tb][-4:]
    return dict(obligation='no unexpected exception',
                detail=f'{type(e).__name__}: {e}', where=where,
                inputs=V.values), V
  finally:
    V.restore_patches()

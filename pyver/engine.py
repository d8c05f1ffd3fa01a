"""Symbolic execution with contracts: generates and discharges the VCs."""
import dataclasses
import datetime as dt
import enum
import fractions
import functools
import importlib
import inspect
import math
import os
import subprocess
import sys
import tempfile
import time
import traceback
import types

import numpy as np
import z3

from pyver import runtime
from pyver import values as v
from pyver.values import (SNum, SBool, SDelta, SDatetime, SRange, PathEnd,
                          Infeasible, Unsupported, BoundHit, Stop, zbool, lift,
                          issym, toreal)

REPO_PREFIX = ('balloon_learning_environment', 's2sphere', 'props')


def resolve(target):
  """'pkg.mod:Class.attr' -> (owner, attr name, raw attribute)."""
  mod, _, qual = target.partition(':')
  owner = importlib.import_module(mod)
  parts = qual.split('.')
  for p in parts[:-1]:
    owner = getattr(owner, p)
  raw = owner.__dict__[parts[-1]] if isinstance(owner, type) else getattr(
      owner, parts[-1])
  return owner, parts[-1], raw


FOREIGN = ('numpy', 'gym', 'scipy', 'jax', 'sklearn', 'jaxlib')


def denote(x):
  """A concrete object array as an array of floats."""
  if isinstance(x, np.ndarray) and x.dtype == object:
    try:
      return x.astype(float)
    except (TypeError, ValueError):
      pass
  return x


def deep_sym(x, depth=3):
  if issym(x):
    return True
  if depth and isinstance(x, (list, tuple)):
    return any(deep_sym(y, depth - 1) for y in x)
  if depth and isinstance(x, dict):
    return any(deep_sym(y, depth - 1) for y in x.values())
  if isinstance(x, np.ndarray) and x.dtype == object:
    return any(issym(y) for y in x.flat)
  return False


class Obligation:
  __slots__ = ('name', 'status', 'backend', 'time', 'model', 'path', 'size')

  def __init__(self, name, status, backend, time_, model=None, path=None):
    self.name, self.status, self.backend = name, status, backend
    self.time, self.model, self.path = time_, model, path


class Session:
  """One unit under symbolic execution."""
  symbolic = True
  concrete_mode = False

  def __init__(self, seed=1, vc_timeout=8000, feas_timeout=400,
               max_paths=600, max_unroll=64, deadline=None, use_cvc5=True,
               rlimit=0, powers=False, trig=False):
    self.trig = trig
    self.powers = powers
    self.seed = seed
    self.vc_timeout, self.feas_timeout = vc_timeout, feas_timeout
    self.max_paths, self.max_unroll = max_paths, max_unroll
    self.deadline = deadline
    self.use_cvc5 = use_cvc5
    self.obligations = []
    self.contracts = {}        # function object -> Contract
    self.patches = []
    self.functions = set()     # functions of the repository executed
    self.contract_uses = {}
    self.model_uses = set()
    self.covers = self.cover_tries = 0
    self.paths = 0
    self.notes = []
    self.bounded = []
    self.loop_specs = {}
    self.solver_time = 0.0
    self.failed = []
    self.houdini_dropped = set()
    self.no_loop_contracts = False
    self.loops_used = set()

  # ---- paths ----------------------------------------------------------
  def start(self, prefix):
    self.prefix, self.di, self.trail = prefix, 0, []
    self.pc = []
    self.npc, self.facts = 0, {}
    self.inc = z3.Solver()
    self.inc.set('timeout', self.feas_timeout)
    self.fresh_n = 0
    self.inputs = []       # (name, kind, payload)
    self.names = {}
    self.apps = {}
    self.rapps = {}
    self.calendar = True
    self.rough = {}
    self.open = []
    self.loop_count = {}
    self.loop_specs = {}
    self.choices = {}
    self.depth = 0
    self.ghost = {}
    self._conc = {}

  def explore(self, body):
    stack = [[]]
    while stack:
      prefix = stack.pop()
      if self.paths >= self.max_paths:
        raise Unsupported(f'more than {self.max_paths} paths')
      if self.deadline and time.time() > self.deadline:
        raise Unsupported('time budget for this unit used up')
      self.start(prefix)
      self.paths += 1
      runtime.SESSION = self
      try:
        body(self)
        self.end_cover()
      except PathEnd:
        self.end_cover()
      except Infeasible:
        pass
      except BoundHit as e:
        if str(e) not in self.bounded:
          self.bounded.append(str(e))
      except Stop:
        raise
      except Exception as e:  # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f'{os.path.basename(f.filename)}:{f.lineno}'
                      for f in reversed(tb)
                      if 'balloon_learning' in f.filename), '?')
        if isinstance(e, (TypeError, AttributeError)) and any(
            t in str(e) for t in ('SNum', 'SBool', 'SDelta', 'SDatetime',
                                  'SRange')):
          raise Unsupported(f'{type(e).__name__}: {e} at {where}')
        try:
          self.prove('no unexpected exception', False,
                     info=f'{type(e).__name__}: {e} at {where}')
        except PathEnd:
          pass
      finally:
        runtime.SESSION = None
        self.restore_patches()
      for i in range(len(prefix), len(self.trail)):
        forced, choice, other = self.trail[i]
        if not forced:
          base = [t[1] for t in self.trail[:i]]
          for o in reversed(other):
            stack.append(base + [o])

  def end_cover(self):
    """Vacuity guard: is the end of this path reachable at all?"""
    if self.covers >= 1 or self.cover_tries >= 3:
      return
    self.cover_tries += 1
    st, _, _, _ = self.solve(list(self.pc), timeout=3000, quick=True)
    if st == 'sat':
      self.covers += 1

  def decide(self, cond):
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    if self.di < len(self.prefix):
      ch = self.prefix[self.di]
      self.di += 1
      self.trail.append((True, ch, ()))
      self._assume(cond if ch else z3.Not(cond))
      return ch
    if self.deadline and time.time() > self.deadline:
      raise Unsupported('time budget for this unit used up')
    known = self._known(cond)
    t = self._feasible(cond) if known is None else known
    f = (self._feasible(z3.Not(cond)) if known is None else not known) if (
        t) else True
    if t and f:
      self.trail.append((False, True, (False,)))
      self.di += 1
      self.prefix = self.prefix + [True]
      self._assume(cond)
      return True
    if not t and not f:
      raise Infeasible()
    self.trail.append((True, t, ()))
    self.di += 1
    self.prefix = self.prefix + [t]
    self._assume(cond if t else z3.Not(cond))
    return t

  def unique(self, x):
    """The only value an integer can have on this path, or None."""
    e = z3.simplify(x.e)
    if z3.is_int_value(e):
      return e.as_long()
    if self.di < len(self.prefix):
      val = self.prefix[self.di]
      self.trail.append((True, val, ()))
      self.di += 1
      if val is not None:
        self._assume(e == val)
      return val
    val, t0 = None, time.time()
    self.inc.set('timeout', 8000)
    if self.inc.check() == z3.sat:
      m = self.inc.model().eval(e, model_completion=True)
      if z3.is_int_value(m) and not self._feasible(e != m.as_long()):
        val = m.as_long()
    self.inc.set('timeout', self.feas_timeout)
    self.solver_time += time.time() - t0
    self.trail.append((True, val, ()))
    self.di += 1
    self.prefix = self.prefix + [val]
    if val is not None:
      self._assume(e == val)
    return val

  def choice(self, name, options):
    """Exhaustive case split over a finite list (spec level)."""
    name = self._name(name)
    n = len(options)
    if self.di < len(self.prefix):
      ch = self.prefix[self.di]
      self.trail.append((True, ch, ()))
    else:
      ch = 0
      self.trail.append((False, 0, tuple(range(1, n))))
      self.prefix = self.prefix + [0]
    self.di += 1
    self.inputs.append((name, 'choice', ch))
    return options[ch]

  def _known(self, cond):
    """What this path has already decided or been told about `cond`."""
    while self.npc < len(self.pc):
      c = self.pc[self.npc]
      c, yes = (c.arg(0), False) if z3.is_not(c) else (c, True)
      self.facts[c.get_id()] = (c, yes)
      self.npc += 1
    yes = True
    if z3.is_not(cond):
      cond, yes = cond.arg(0), False
    hit = self.facts.get(cond.get_id())
    if hit is None or not hit[0].eq(cond):
      return None
    return hit[1] == yes

  def _feasible(self, cond):
    t0 = time.time()
    self.inc.push()
    self.inc.add(cond)
    r = self.inc.check()
    self.inc.pop()
    if r == z3.unknown:
      try:
        lin, nonlinear = linearize(self.pc + [cond])
        if nonlinear:
          sl = z3.Solver()
          sl.set('timeout', self.feas_timeout)
          sl.add(*lin)
          r = sl.check()
      except z3.Z3Exception:
        pass
    self.solver_time += time.time() - t0
    return r != z3.unsat

  def _assume(self, cond):
    self.pc.append(cond)
    self.inc.add(cond)

  def axiom(self, cond):
    self._assume(zbool(cond))

  def assume(self, cond):
    c = z3.simplify(zbool(cond))
    if z3.is_false(c):
      raise Infeasible()
    if not z3.is_true(c):
      self._assume(c)

  # ---- inputs ---------------------------------------------------------
  def _name(self, name):
    n = self.names.get(name, 0)
    self.names[name] = n + 1
    return name if n == 0 else f'{name}#{n}'

  def fresh(self, name, sort='real'):
    self.fresh_n += 1
    nm = f'{name}!{self.fresh_n}'
    if sort == 'int':
      return SNum(z3.Int(nm))
    if sort == 'bool':
      return SBool(z3.Bool(nm))
    return SNum(z3.Real(nm))

  def real(self, name, lo=None, hi=None, pts=(), lo_open=False, hi_open=False):
    name = self._name(name)
    x = z3.Real(name)
    self.inputs.append((name, 'real', x))
    r = SNum(x)
    if lo is not None:
      self.assume(r > lo if lo_open else r >= lo)
    if hi is not None:
      self.assume(r < hi if hi_open else r <= hi)
    return r

  def int(self, name, lo=None, hi=None, pts=(), small=None):
    name = self._name(name)
    x = z3.Int(name)
    self.inputs.append((name, 'int', x))
    r = SNum(x)
    if lo is not None:
      self.assume(r >= lo)
    if hi is not None:
      self.assume(r <= hi)
    return r

  def bool(self, name):
    name = self._name(name)
    x = z3.Bool(name)
    self.inputs.append((name, 'bool', x))
    return SBool(x)

  def delta(self, name, lo=None, hi=None, pts=()):
    return SDelta(self.real(name, lo, hi, pts))

  def datetime(self, name, lo=None, hi=None):
    return SDatetime(self.real(name, lo, hi))

  def in_zone(self, t, minutes):
    """The same instant, expressed `minutes` ahead of UTC."""
    return SDatetime(SDatetime.of(t).t, v.SZone(SNum(toreal(lift(
        minutes)) * 60)))

  def array(self, name, n, lo=None, hi=None):
    out = np.empty(n, dtype=object)
    for i in range(n):
      out[i] = self.real(f'{name}[{i}]', lo, hi)
    return out

  # ---- proof obligations ---------------------------------------------
  def soft(self, name, goal):
    """An induction side condition: if it fails the unit is only bounded."""
    g = zbool(goal)
    if self.di < len(self.prefix):
      return
    st, _, backend, t = self.solve(self.pc + [z3.Not(g)])
    if st == 'unsat':
      self.obligations.append(Obligation(name, 'proved', backend, t))
    else:
      m = f'induction not established: {name}'
      if m not in self.bounded:
        self.bounded.append(m)

  def prove(self, name, goal, info=None):
    replaying = self.di < len(self.prefix)
    g = z3.simplify(zbool(goal)) if not isinstance(goal, bool) else (
        z3.BoolVal(goal))
    if replaying:
      self._assume_goal(g)
      return
    if z3.is_true(g):
      self.obligations.append(Obligation(
          name, 'proved', 'path (goal evaluated on the symbolic path)' if
          isinstance(goal, (bool, np.bool_)) else 'z3-simplify', 0.0))
      return
    st, model, backend, t = self.solve(self.pc + [z3.Not(g)])
    self.solver_time += t
    if st == 'sat' and self.rough and not isinstance(goal, bool):
      st2, _, _, t2 = self.solve(
          self.pc + [z3.Not(self.up_to_rounding(zbool(goal)))],
          min(self.vc_timeout, 10000))
      self.solver_time += t2
      if st2 == 'unsat':
        st, backend, t = st2, 'z3, up to rounding of constants', t + t2
    if st == 'unsat':
      self.obligations.append(Obligation(name, 'proved', backend, t))
    else:
      inp = self.model_inputs(model) if model is not None else None
      more = []
      if st == 'sat':
        more = self.more_models(self.pc + [z3.Not(g)], model)
      ob = Obligation(name, 'refuted' if st == 'sat' else 'unknown', backend,
                      t, inp, info)
      self.obligations.append(ob)
      self.failed.append(dict(name=name, status=ob.status, backend=backend,
                              inputs=inp, more=more, info=info,
                              goal=str(g)[:1500],
                              path=[str(c)[:200] for c in self.pc[-12:]]))
    if z3.is_false(g):
      raise PathEnd()
    self._assume_goal(g)

  def up_to_rounding(self, g):
    """The goal with its V.eq / V.le atoms allowed a relative 1e-10."""
    memo = {}

    def go(t):
      k = t.get_id()
      if k not in memo:
        if k in self.rough and self.rough[k][0].eq(t):
          memo[k] = self.rough[k][1]
        elif z3.is_app(t) and t.num_args() and t.decl().kind() in (
            z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES,
            z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_IFF) and all(
                z3.is_bool(c) for c in t.children()):
          memo[k] = t.decl()(*[go(c) for c in t.children()])
        else:
          memo[k] = t
      return memo[k]
    return go(g)

  def _assume_goal(self, g):
    if not z3.is_true(g):
      if z3.is_false(g):
        raise PathEnd()
      self._assume(g)

  def model_inputs(self, m):
    out = {}
    for name, kind, x in self.inputs:
      if kind == 'choice':
        out[name] = x
        continue
      val = m.eval(x, model_completion=True)
      if kind == 'bool':
        out[name] = bool(z3.is_true(val))
      elif kind == 'int':
        out[name] = val.as_long() if z3.is_int_value(val) else 0
      else:
        out[name] = self._tofloat(val)
    return out

  @staticmethod
  def _tofloat(val):
    try:
      if z3.is_rational_value(val):
        return float(val.as_fraction())
      if z3.is_int_value(val):
        return float(val.as_long())
      if z3.is_algebraic_value(val):
        return float(val.approx(30).as_fraction())
    except (OverflowError, z3.Z3Exception):
      pass
    return 0.0

  def more_models(self, cs, model, n=4):
    """A few further counterexamples, away from the first one."""
    out = []
    reals = [x for _, k, x in self.inputs if k in ('real', 'int')]
    if not reals or model is None:
      return out
    s = z3.Solver()
    s.set('timeout', 1500)
    s.set('random_seed', self.seed)
    s.add(*cs)
    import random
    rnd = random.Random(self.seed)
    for _ in range(n):
      s.push()
      for x in rnd.sample(reals, min(len(reals), 1 + len(reals) // 2)):
        c = model.eval(x, model_completion=True)
        try:
          s.add(x != c)
          if rnd.random() < .5:
            s.add(z3.Or(x > c + rnd.choice([1, 10, 100]),
                        x < c - rnd.choice([1, 10])))
        except z3.Z3Exception:
          pass
      if s.check() == z3.sat:
        out.append(self.model_inputs(s.model()))
      s.pop()
    return out

  def solve(self, cs, timeout=None, quick=False):
    """-> (status, model, backend, seconds)."""
    t0 = time.time()
    timeout = timeout or self.vc_timeout
    s = z3.Solver()
    s.set('timeout', min(timeout, 1500) if not quick else timeout)
    s.set('random_seed', self.seed % 1000)
    s.add(*cs)
    r = s.check()
    if r == z3.unsat:
      return 'unsat', None, 'z3', time.time() - t0
    if r == z3.sat:
      return 'sat', s.model(), 'z3', time.time() - t0
    if quick:
      return 'unknown', None, 'z3', time.time() - t0
    # the hypotheses may be too much for the solver: try the short ones alone
    short = [c for c in cs[:-1] if len(c.sexpr()) < 600]
    if 0 < len(short) < len(cs) - 1:
      s1 = z3.Solver()
      s1.set('timeout', min(timeout, 4000))
      s1.add(*short, cs[-1])
      if s1.check() == z3.unsat:
        return 'unsat', None, 'z3', time.time() - t0
    try:
      lin, nonlinear = linearize(cs)
      if nonlinear:
        sl = z3.Solver()
        sl.set('timeout', min(timeout, 3000))
        sl.add(*lin)
        if sl.check() == z3.unsat:
          return 'unsat', None, 'z3-linearized', time.time() - t0
    except z3.Z3Exception:
      pass
    # second attempt: solve-eqs + nlsat on the ackermannised problem
    for tac in ('qfnra', 'qfnia'):
      try:
        if tac == 'qfnra':
          a = [ackermannize(c) for c in [z3.And(*cs)]][0]
          t = z3.Then('simplify', 'solve-eqs', 'elim-term-ite', 'solve-eqs',
                      'qfnra-nlsat')
          s2 = z3.TryFor(t, timeout).solver()
          s2.add(a)
          r = s2.check()
          if r == z3.unsat:
            return 'unsat', None, 'z3-nlsat', time.time() - t0
          if r == z3.sat:
            m = s2.model()
            return 'sat', m, 'z3-nlsat', time.time() - t0
      except z3.Z3Exception:
        pass
    if self.use_cvc5:
      st = cvc5_check(s, timeout)
      if st == 'unsat':
        return 'unsat', None, 'cvc5', time.time() - t0
    s.set('timeout', timeout)
    s.set('random_seed', self.seed % 1000 + 7)
    r = s.check()
    if r == z3.unsat:
      return 'unsat', None, 'z3', time.time() - t0
    if r == z3.sat:
      return 'sat', s.model(), 'z3', time.time() - t0
    return 'unknown', None, 'z3+cvc5', time.time() - t0

  # ---- logic helpers (shared with the concrete mode) --------------------
  def And(self, *cs):
    return SBool(z3.And(*[zbool(c) for c in cs]))

  def Or(self, *cs):
    return SBool(z3.Or(*[zbool(c) for c in cs]))

  def Not(self, c):
    return SBool(z3.Not(zbool(c)))

  def Implies(self, a, b):
    return SBool(z3.Implies(zbool(a), zbool(b)))

  def Iff(self, a, b):
    return SBool(zbool(a) == zbool(b))

  def ite(self, c, a, b):
    return v.s_ite(c, a, b)

  def eq(self, a, b, tol=None):
    """a == b (exact here; up to rounding in the concrete mode)."""
    if isinstance(a, (SDelta, dt.timedelta)):
      a, b = v.secs(a), v.secs(b)
    if isinstance(a, (SDatetime, dt.datetime)):
      a, b = SDatetime.of(a).t, SDatetime.of(b).t
    x, y = lift(a), lift(b)
    if x is None or y is None:
      return a == b
    x, y = v.same_sort(x, y)
    return self._tolerant(x == y, x, y, True)

  def _tolerant(self, atom, x, y, both):
    """Remember what `atom` says up to the rounding of machine constants."""
    if x.sort() == z3.RealSort() and not (z3.is_true(atom) or
                                          z3.is_false(atom)):
      ax, ay = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y)
      t = ROUNDING * (1 + ax + ay)
      self.rough[atom.get_id()] = (atom, z3.And(
          x <= y + t, y <= x + t) if both else x <= y + t)
    return SBool(atom)

  def near(self, a, b, tol):
    d = a - b
    return self.And(d <= tol, d >= -tol)

  def le(self, a, b, tol=None):
    x, y = v.same_sort(lift(a), lift(b))
    return self._tolerant(x <= y, x, y, False)

  def lt(self, a, b, tol=None):
    x, y = v.same_sort(lift(a), lift(b))
    return SBool(x < y)

  def min(self, a, b):
    return v.s_min(a, b)

  def max(self, a, b):
    return v.s_max(a, b)

  def floor(self, a):
    return SNum(a.e if a.e.is_int() else z3.ToInt(a.e)) if isinstance(
        a, SNum) else math.floor(a)

  def secs(self, d):
    return v.secs(d)

  def is_delta(self, x):
    return isinstance(x, (SDelta, dt.timedelta))

  def exact_secs(self, d):
    s = v.secs(d)
    return s if isinstance(s, SNum) else SNum(v.ratval(s))

  def exactly(self, a, b):
    return self.eq(a, b)

  def const(self, x):
    """A constant whose arithmetic is exact from here on."""
    return SNum(v.toreal(v.ratval(x)))

  def exactify(self, *modules):
    """Module-level float constants take part in exact arithmetic."""
    for m in modules:
      for n, x in list(vars(m).items()):
        if type(x) in (float, np.float64) and math.isfinite(x):
          self.patch(m, n, self.const(x))

  def const_delta(self, secs):
    return SDelta(secs if isinstance(secs, SNum) else self.const(secs))

  def whole(self, x):
    """x is an integer."""
    return SBool(z3.IsInt(toreal(lift(x))))

  def away(self, x, c, tol=1e-9):
    """Concrete mode: keep clear of a rounding-sensitive threshold."""

  def ge0(self, x):
    return SBool(lift(x) >= 0)

  def timestamp(self, t):
    return SDatetime.of(t).t

  def truth(self, c):
    """Case split on a condition (spec level)."""
    return bool(c)

  def math(self, name, *args):
    if any(isinstance(a, SNum) for a in args):
      if name == 'sqrt':
        return self.fn_sqrt(args[0])
      if name == 'pow':
        return args[0]**args[1]
      if name == 'radians':
        return args[0] * math.pi / 180
      if name == 'degrees':
        return args[0] * 180 / math.pi
      return self.fn(name, *args)
    return getattr(math, {'atan2': 'atan2'}.get(name, name))(*args)

  # ---- running code -----------------------------------------------------
  def run(self, f, *a, **k):
    """Calls f, returns ('ok', value) or ('raise', exception)."""
    try:
      return 'ok', f(*a, **k)
    except Exception as e:  # pylint: disable=broad-except
      if isinstance(e, (TypeError, AttributeError)) and any(
          t in str(e) for t in ('SNum', 'SBool', 'SDelta', 'SDatetime')):
        raise Unsupported(f'{type(e).__name__}: {e}')
      return 'raise', e

  def call(self, f, *a, **k):
    """A call made by a specification: goes through the contracts."""
    return self.dispatch(f, a, k)

  def obj(self, cls, **attrs):
    o = object.__new__(cls)
    for n, x in attrs.items():
      object.__setattr__(o, n, x)
    return o

  def patch(self, owner, name, new):
    """Replaces an attribute for the rest of this path (trusted stub)."""
    had = name in getattr(owner, '__dict__', {})
    self.patches.append((owner, name, getattr(owner, '__dict__', {}).get(
        name), had))
    setattr(owner, name, new)

  def restore_patches(self):
    while self.patches:
      owner, name, old, had = self.patches.pop()
      if had:
        setattr(owner, name, old)
      else:
        delattr(owner, name)

  def use(self, *contracts):
    for c in contracts:
      try:
        owner, name, raw = c.resolve()
      except (AttributeError, KeyError, ImportError) as e:
        self.notes.append(f'contract target {c.target} not found; inlined')
        continue
      if isinstance(raw, property):
        key = raw.fget
      elif isinstance(raw, (staticmethod, classmethod)):
        key = raw.__func__
      else:
        key = raw
      if isinstance(raw, property) and c not in self.open:
        sess = self

        def fget(self_, c=c, orig=raw):
          if c in sess.open or runtime.SESSION is not sess:
            return orig.fget(self_)
          return sess.apply(c, (self_,), {})
        self.patch(owner, name, property(fget))
      self.contracts[key] = c

  def apply(self, c, a, k):
    """Modular call: precondition proved, result and postcondition assumed."""
    self.contract_uses[c.target] = self.contract_uses.get(c.target, 0) + 1
    try:
      args = c.bind(a, k)
    except TypeError as e:
      raise Unsupported(f'call of {c.target} does not match its contract: {e}')
    for name, cond in (c.pre(self, args) or ()):
      self.prove(f'pre[{c.short}] {name}', cond)
    r = c.result(self, args)
    for name, cond in (c.post(self, args, r) or ()):
      self.assume(cond)
    return r

  def verify(self, c, *a, **k):
    """The function against its own contract (its callees by contract)."""
    owner, name, raw = c.resolve()
    args = c.bind(a, k)
    for nm, cond in (c.pre(self, args) or ()):
      self.assume(cond)
    self.open.append(c)
    try:
      f = getattr(owner, name) if not isinstance(raw, property) else raw.fget
      if isinstance(raw, property):
        r = raw.fget(*a, **k)
      elif isinstance(owner, type) and isinstance(raw, types.FunctionType):
        r = raw(*a, **k)
      else:
        r = f(*a, **k)
    finally:
      self.open.pop()
    self.functions.add(c.target)
    for nm, cond in (c.post(self, args, r) or ()):
      self.prove(f'{c.short}: {nm}', cond)
    return r

  def dispatch(self, f, a, k):
    key = getattr(f, '__func__', f)
    try:
      c = self.contracts.get(key)
    except TypeError:
      c = None
    if c is not None and c not in self.open:
      self_ = getattr(f, '__self__', None)
      if self_ is not None and key is not f and not isinstance(
          self_, type(sys)):
        a = (self_,) + tuple(a)
      return self.apply(c, a, k)
    try:
      m = runtime.ALWAYS.get(key)
    except TypeError:
      m = None
    if m is not None:
      return self.by_model(m, f, *a, **k)
    if a or k:
      sym = deep_sym(a) or (k and deep_sym(k))
      if sym:
        try:
          m = runtime.MODELS.get(f)
        except TypeError:
          m = None
        if m is not None:
          self.model_uses.add(getattr(f, '__name__', str(f)))
          return self.by_model(m, f, *a, **k)
        m = runtime.TYPEMODELS.get(type(f))
        if m is not None:
          self.model_uses.add(type(f).__name__)
          return m(self, f, *a, **k)
        w = getattr(f, '__wrapped__', None)
        if w is not None and type(f).__name__ in ('PjitFunction',):
          return w(*a, **k)
        modname = getattr(f, '__module__', None) or ''
        if not str(modname).startswith(REPO_PREFIX):
          try:
            return f(*a, **k)
          except (TypeError, AttributeError) as e:
            raise Unsupported(
                f'{getattr(f, "__name__", f)} on symbolic values: {e}')
      elif str(getattr(f, '__module__', None)).partition('.')[0] in FOREIGN:
        # buffers of a session hold objects; foreign code wants numbers
        a = tuple(denote(x) for x in a)
        k = {n: denote(x) for n, x in k.items()}
    if isinstance(key, types.FunctionType) and str(key.__module__).startswith(
        'balloon_learning_environment'):
      self.functions.add(f'{key.__module__}:{key.__qualname__}')
    return f(*a, **k)

  def by_model(self, m, f, *a, **k):
    try:
      return m(self, *a, **k)
    except (TypeError, AttributeError) as e:
      # a use the model was not written for is no statement about the code
      tb = traceback.extract_tb(e.__traceback__)
      last = tb[-1]
      if (len(tb) == 1 or os.path.basename(last.filename) in (
          'models.py', 'values.py')) and not (last.line or '').startswith(
              'raise '):
        raise Unsupported(f'{getattr(f, "__name__", f)} used beyond its '
                          f'model: {e}')
      raise

  def iop(self, op, a, b):
    if isinstance(a, np.ndarray) and (a.dtype == object or deep_sym(b)):
      if issym(b):
        c = np.empty((), dtype=object)
        c[()] = b
        b = c
      r = op(a, b) if isinstance(b, np.ndarray) or not deep_sym(b) else op(
          a, np.array(b, dtype=object))
      if a.dtype == object:
        a[...] = r
        return a
      if a.base is not None:
        raise Unsupported('in-place update of a numeric view')
      return r
    return None

  def getitem(self, o, i):
    if isinstance(i, SNum) and isinstance(o, (list, tuple, np.ndarray)):
      c = self.concrete(i)
      if c is not None:
        return o[int(c)]
      n = len(o)
      if self.decide(z3.Or(i.e < -n, i.e >= n)):
        raise IndexError('list index out of range')
      j = SNum(z3.If(i.e < 0, i.e + n, i.e))
      if n <= 64 and all(lift(x) is not None for x in o):
        r = o[n - 1]
        for q in range(n - 2, -1, -1):
          r = v.s_ite(j == q, o[q], r)
        return r
      for q in range(n):
        if self.decide(j.e == q):
          return o[q]
      raise Infeasible()
    return o[i]

  def concrete(self, x):
    e = z3.simplify(x.e)
    if z3.is_int_value(e):
      return fractions.Fraction(e.as_long())
    if z3.is_rational_value(e):
      return e.as_fraction()
    return None

  # ---- functions of the reals ------------------------------------------
  def _app(self, name, args, make):
    """Uninterpreted application with structural caching."""
    ent = self.apps.setdefault(name, [])
    sargs = [z3.simplify(toreal(lift(a))) for a in args]
    for old, r in ent:
      if all(x.eq(y) for x, y in zip(old, sargs)):
        return r, None
    # the same argument up to the rounding of machine constants is the same
    # argument: -0.693 / h * x and -0.693 * x / h, for instance
    rargs = [rounded_literals(x) for x in sargs]
    for (old, r), olda in zip(ent, self.rapps.setdefault(name, [])):
      if all(x.eq(y) for x, y in zip(olda, rargs)):
        return r, None
    r = make(sargs)
    ent.append((sargs, r))
    self.rapps[name].append(rargs)
    return r, sargs

  def uf(self, name, *args):
    def make(sargs):
      f = z3.Function(name, *([z3.RealSort()] * (len(sargs) + 1)))
      return SNum(f(*sargs)) if sargs else SNum(z3.Real(name))
    return self._app(name, args, make)[0]

  def fun(self, name, *args, lo=None, hi=None):
    """The value of an arbitrary function (specification-level stub)."""
    r = self.uf('fun:' + name, *[a if isinstance(a, SNum) else SNum(
        v.ratval(a)) for a in args])
    if lo is not None:
      self.axiom(r >= lo)
    if hi is not None:
      self.axiom(r <= hi)
    return r

  def fun_bool(self, name, *args):
    return self.uf_bool('fun:' + name, *[a if isinstance(a, SNum) else SNum(
        v.ratval(a)) for a in args])

  def uf_int(self, name, *args):
    def make(sargs):
      f = z3.Function(name, *([z3.RealSort()] * len(sargs) + [z3.IntSort()]))
      return SNum(f(*sargs)) if sargs else SNum(z3.Int(name))
    return self._app(name, args, make)[0]

  def uf_bool(self, name, *args):
    def make(sargs):
      f = z3.Function(name, *([z3.RealSort()] * len(sargs) + [z3.BoolSort()]))
      return SBool(f(*sargs)) if sargs else SBool(z3.Bool(name))
    return self._app(name, args, make)[0]

  def fn_sqrt(self, x):
    c = self.concrete(x) if isinstance(x, SNum) else None
    if c is not None and c >= 0:
      r = fractions.Fraction(math.isqrt(c.numerator), math.isqrt(
          c.denominator))
      if r * r == c:
        return SNum(v.ratval(r))
    n0 = len(self.apps.get('sqrt', []))
    r = self.uf('sqrt', x)
    if len(self.apps['sqrt']) > n0:
      xe = toreal(lift(x))
      self.axiom(z3.Implies(xe >= 0, z3.And(r.e >= 0, r.e * r.e == xe)))
      self.axiom(z3.Implies(xe > 0, r.e > 0))
    return r

  def fn_pow(self, x, y):
    n0 = len(self.apps.get('pow', []))
    r = self.uf('pow', x, y)
    if len(self.apps['pow']) == n0:
      return r
    X, Y, R = x.e, y.e, r.e
    self.axiom(z3.Implies(X > 0, R > 0))
    self.axiom(z3.Implies(X == 1, R == 1))
    self.axiom(z3.Implies(z3.And(X == 0, Y > 0), R == 0))
    if not self.powers:
      return r
    up, down = self.valid(Y > 0), self.valid(Y < 0)
    if up or down:
      self.axiom(z3.Implies(X > 0, z3.And(
          (X > 1) == (R > 1 if up else R < 1), (X == 1) == (R == 1))))
    sy = z3.simplify(Y)
    if z3.is_rational_value(sy):
      f = sy.as_fraction()
      if 0 < f.numerator <= 4 and f.denominator <= 4:
        q, w = z3.RealVal(1), z3.RealVal(1)
        for _ in range(f.denominator):
          q = q * R
        for _ in range(f.numerator):
          w = w * X
        self.axiom(z3.Implies(X >= 0, z3.And(R >= 0, q == w)))
    for (a, ea), b in self.apps['pow'][:-1]:
      b = b.e
      if self._same(ea, Y):
        if up or down:
          self.axiom(z3.Implies(z3.And(a > 0, X > 0), z3.And(
              (a < X) == (b < R if up else b > R), (a == X) == (b == R))))
      elif self._same(ea * Y, z3.RealVal(1)):
        # mutually inverse powers; t -> t^ea is injective
        if self.valid(X == b):
          self.axiom(z3.Implies(a > 0, R == a))
        else:
          self.axiom(z3.Implies(z3.And(a > 0, X > 0), (X == b) == (R == a)))
          if up or down:
            self.axiom(z3.Implies(z3.And(a > 0, X > 0), (
                X < b) == (R < a if up else R > a)))
    return r

  def _same(self, a, b):
    """Equal exponents (constants: equal up to their rounding)."""
    d = z3.simplify(a - b)
    if z3.is_rational_value(d):
      return abs(d.as_fraction()) < fractions.Fraction(1, 10**12)
    return self.valid(a == b)

  def valid(self, c, timeout=400):
    """c follows from the path condition (quick check; False if unsure)."""
    c = z3.simplify(c)
    if z3.is_true(c) or z3.is_false(c):
      return z3.is_true(c)
    for pc in ([], [q for q in self.pc if len(q.sexpr()) < 400], self.pc):
      st = self.solve(list(pc) + [z3.Not(c)], timeout, quick=True)[0]
      if st == 'unsat':
        return True
    return False

  def fn(self, name, *args):
    args = [a if isinstance(a, SNum) else SNum(v.ratval(a)) for a in args]
    n0 = len(self.apps.get(name, []))
    r = self.uf(name, *args)
    new = len(self.apps[name]) > n0
    if not new:
      return r
    x = toreal(args[0].e)
    prev = self.apps[name][:-1]
    R = r.e
    pi = v.ratval(math.pi)
    if name == 'exp':
      self.axiom(R > 0)
      self.axiom(z3.Implies(x >= 0, R >= 1))
      self.axiom(z3.Implies(x <= 0, R <= 1))
      self.axiom(z3.Implies(x > 0, R > 1))
      self.axiom(z3.Implies(x < 0, R < 1))
      self.axiom(R >= 1 + x)
      for (a,), b in prev:
        self.axiom(z3.And((a < x) == (b.e < R), (a == x) == (b.e == R)))
      for (a,), b in self.apps.get('log', []):
        self.axiom(z3.Implies(z3.And(a > 0, x == b.e), R == a))
        self.axiom(z3.Implies(a > 0, z3.And((a < R) == (b.e < x),
                                            (a == R) == (b.e == x))))
    elif name == 'log':
      self.axiom(z3.Implies(x >= 1, R >= 0))
      self.axiom(z3.Implies(z3.And(x > 0, x < 1), R < 0))
      self.axiom(z3.Implies(x > 0, R <= x - 1))
      for (a,), b in prev:
        self.axiom(z3.Implies(z3.And(a > 0, x > 0),
                              z3.And((a < x) == (b.e < R),
                                     (a == x) == (b.e == R))))
      for (a,), b in self.apps.get('exp', []):
        self.axiom(z3.Implies(b.e == x, R == a))
        self.axiom(z3.Implies(x > 0, z3.And((x < b.e) == (R < a),
                                            (x == b.e) == (R == a))))
    elif name in ('sin', 'cos'):
      self.axiom(z3.And(R >= -1, R <= 1))
      other = 'cos' if name == 'sin' else 'sin'
      for (a,), b in self.apps.get(other, []):
        if a.eq(z3.simplify(x)):
          self.axiom(R * R + b.e * b.e == 1)
      if name == 'sin':
        self.axiom(z3.Implies(z3.And(x >= 0, x <= pi), R >= 0))
        self.axiom(z3.Implies(z3.And(x <= 0, x >= -pi), R <= 0))
        self.axiom(z3.Implies(x == 0, R == 0))
        self.axiom(z3.Implies(z3.And(x > 0, x < pi), R > 0))
        self.axiom(z3.Implies(x >= 0, R <= x))
        self.axiom(z3.Implies(x <= 0, R >= x))
        if self.powers:
          for (a,), b in prev:
            self.axiom(z3.Implies(
                z3.And(a >= -pi / 2, a <= pi / 2, x >= -pi / 2, x <= pi / 2),
                (a < x) == (b.e < R)))
      else:
        self.axiom(z3.Implies(z3.And(x >= -pi / 2, x <= pi / 2), R >= 0))
        self.axiom(z3.Implies(z3.And(x > -pi / 2, x < pi / 2), R > 0))
        self.axiom(z3.Implies(x == 0, R == 1))
    elif name == 'tan':
      self.axiom(z3.Implies(z3.And(x > 0, x < pi / 2), R > x))
      # at the double nearest -pi/2 the tangent is -1.6e16
      self.axiom(z3.Implies(z3.And(x < 0, x >= -pi / 2), R < x))
      self.axiom(z3.Implies(x == 0, R == 0))
    elif name == 'asin':
      self.axiom(z3.And(R >= -pi / 2, R <= pi / 2))
      self.axiom(z3.Implies(x >= 0, R >= 0))
      self.axiom(z3.Implies(x <= 0, R <= 0))
      for (a,), b in prev:
        self.axiom(z3.Implies(z3.And(a >= -1, a <= 1, x >= -1, x <= 1),
                              (a < x) == (b.e < R)))
      if self.trig:
        self.axiom(z3.Implies(z3.And(x >= -1, x <= 1),
                              self.fn('sin', r).e == x))
        self.axiom(self.fn('cos', r).e >= 0)
        for (a,), b in list(self.apps.get('sin', [])):
          self.axiom(z3.Implies(z3.And(a >= -pi / 2, a <= pi / 2, x == b.e),
                                R == a))
    elif name == 'acos':
      self.axiom(z3.And(R >= 0, R <= pi))
      self.axiom(z3.Implies(x >= 0, R <= pi / 2))
      self.axiom(z3.Implies(x <= 0, R >= pi / 2))
      self.axiom(z3.Implies(x < 1, R > 0))
      self.axiom(z3.Implies(x == 1, R == 0))
    elif name == 'atan':
      self.axiom(z3.And(R > -pi / 2, R < pi / 2))
      self.axiom((x > 0) == (R > 0))
      self.axiom((x == 0) == (R == 0))
    elif name == 'atan2':
      self.axiom(z3.And(R >= -pi, R <= pi))
      y = toreal(args[1].e)
      self.axiom(z3.Implies(x > 0, z3.And(R > 0)))
      self.axiom(z3.Implies(x < 0, z3.And(R < 0)))
      self.axiom(z3.Implies(z3.And(x == 0, y > 0), R == 0))
      self.axiom(z3.Implies(y > 0, z3.And(R > -pi / 2, R < pi / 2)))
      if self.trig:
        h = self.fn_sqrt(SNum(x * x + y * y)).e
        self.axiom(self.fn('sin', r).e * h == x)
        self.axiom(self.fn('cos', r).e * h == y)
    elif name == 'tanh':
      self.axiom(z3.And(R > -1, R < 1, (x > 0) == (R > 0),
                        (x == 0) == (R == 0)))
    return r

  # ---- loops ------------------------------------------------------------
  def loop(self, func, ordinal, inv, havoc=None, keep=(), kinds=None,
           variant=None, exact=None, peel=False, cut=False):
    """Loop contract for the ordinal-th loop of function `mod:qual`.

    cut: a loop over a concrete sequence of numbers is cut as well, at an
    arbitrary position `__k` of the sequence `__items` (with 'split' the
    positions are different paths).

    peel: names in `kinds` that only the body binds are bound after the first
    iteration; the invariant (phases 'assume' and 'preserved') may use them."""
    self.loop_specs[f'{func}#{ordinal}'] = dict(
        inv=inv, havoc=havoc, keep=set(keep), kinds=kinds or {},
        variant=variant, exact=exact, peel=peel, cut=cut)

  def loop_enter(self, lid, it):
    spec = self.loop_specs.get(lid)
    if spec is None or self.no_loop_contracts:
      return None
    if it is not None and not isinstance(it, SRange) and not spec.get('exact'):
      if spec['cut'] or isinstance(it, (range, list, tuple, enumerate)):
        if not spec['cut']:
          return None      # concrete sequence: unrolled exactly
    self.loops_used.add(lid)
    return _LoopHandle(self, lid, it, spec)

  def pick(self, items, k):
    """items[k] for a symbolic index in range."""
    r = items[-1]
    for i in range(len(items) - 2, -1, -1):
      r = self.ite(k == i, items[i], r)
    return r

  def iterate(self, lid, it):
    if isinstance(it, SRange):
      return self._bounded_range(lid, it)
    return it

  def _bounded_range(self, lid, r):
    i = r.start
    n = 0
    while True:
      if not bool(r.stop > i if (not isinstance(r.step, SNum) and r.step > 0)
                  else r.stop < i):
        return
      n += 1
      if n > self.max_unroll:
        raise BoundHit(f'{lid}: unrolled {self.max_unroll} times')
      yield i
      i = i + r.step

  def tick(self, lid):
    n = self.loop_count.get(lid, 0) + 1
    self.loop_count[lid] = n
    if n > 5000 or (n > self.max_unroll and len(self.trail) > n):
      raise BoundHit(f'{lid}: unrolled {n} times')

  def fresh_like(self, name, x, kind=None):
    if kind == 'real':
      return self.fresh(name, 'real')
    if kind == 'int':
      return self.fresh(name, 'int')
    if callable(kind):
      return kind(self)
    if isinstance(x, (SBool, bool, np.bool_)):
      return self.fresh(name, 'bool')
    if isinstance(x, SNum):
      return self.fresh(name, 'int' if x.e.is_int() else 'real')
    if isinstance(x, (float, np.floating)):
      return self.fresh(name, 'real')
    if isinstance(x, (int, np.integer)):
      return self.fresh(name, 'int')
    if isinstance(x, (SDelta, dt.timedelta)):
      return SDelta(self.fresh(name, 'real'))
    if isinstance(x, (SDatetime, dt.datetime)):
      return SDatetime(self.fresh(name, 'real'))
    if x is None or isinstance(x, (str, enum.Enum)):
      raise Unsupported(f'cannot havoc {name}={x!r}')
    if type(x).__module__.endswith('units'):
      o = object.__new__(type(x))
      for kk, y in x.__dict__.items():
        o.__dict__[kk] = self.fresh_like(f'{name}.{kk}', y, 'real')
      return o
    if isinstance(x, tuple):
      return tuple(self.fresh_like(f'{name}[{i}]', y)
                   for i, y in enumerate(x))
    raise Unsupported(f'cannot havoc {name} of type {type(x).__name__}')


class _Env(dict):
  __getattr__ = dict.__getitem__


class _LoopHandle:
  """Invariant rule for one loop (see loader.Instrument._emit)."""

  def __init__(self, s, lid, it, spec):
    self.s, self.lid, self.it, self.spec = s, lid, it, spec
    self.short = lid.split('.')[-1].replace(':', '.')
    self.entry_env = None
    self.k = None
    self.first = False
    self.items = None
    if spec['cut'] and it is not None and not isinstance(it, SRange):
      self.items = [float(x) if isinstance(x, np.floating) else
                    int(x) if isinstance(x, np.integer) else x for x in it]
      if not self.items or not all(isinstance(x, (int, float, SNum))
                                   for x in self.items):
        raise Unsupported('loop contract over these items')
      self.it = SRange(0, len(self.items))

  def _inv(self, e, phase):
    e['phase'] = phase
    if self.items is not None:
      e['__items'] = self.items
    try:
      return list(self.spec['inv'](self.s, e))
    except (KeyError, AttributeError, TypeError) as x:
      raise Unsupported(f'loop contract of {self.lid} does not fit the loop: '
                        f'{type(x).__name__} {x}')

  def entry(self, env):
    self.entry_env = _Env(env)
    self.cur = {k: x for k, x in env.items()}
    if isinstance(self.it, SRange):
      self.cur['__k'] = self.it.start
    e = _Env(self.cur)
    e['entry'] = self.entry_env
    for n, c in self._inv(e, 'entry'):
      self.s.prove(f'{self.short} invariant holds on entry: {n}', c)
    # variables first bound in the body: the loop head is reached either from
    # the entry (everything as it was) or from an iteration (all bound)
    self.first = self.spec['peel'] and bool(self.s.fresh('first', 'bool'))
    if self.first:
      if isinstance(self.it, SRange):
        self.k = self.it.start
      return
    if self.spec['havoc']:
      self.spec['havoc'](self.s, e)
    if isinstance(self.it, SRange):
      self.k = self.s.fresh('k', 'int')
      step = self.it.step
      self.s.assume(self.s.And(self.k >= self.it.start,
                               self.s.Or(self.k <= self.it.stop,
                                         self.k == self.it.start)))
      if step != 1:
        raise Unsupported('symbolic range with step')

  def has(self, n):
    if self.first:
      return False
    return n not in self.spec['keep'] and (
        self.entry_env.get(n) is not runtime.UNBOUND or
        (self.spec['peel'] and n in self.spec['kinds']))

  def havoc(self, n):
    return self.s.fresh_like(n, self.entry_env[n], self.spec['kinds'].get(n))

  def assume(self, env):
    e = _Env(env)
    e['entry'] = self.entry_env
    if self.k is not None:
      e['__k'] = self.k
    e['first'] = self.first
    for _, c in self._inv(e, 'entry' if self.first else 'assume'):
      self.s.assume(c)
    if self.spec['variant']:
      self.v0 = self.spec['variant'](self.s, e)

  def more(self):
    if isinstance(self.it, SRange):
      return self.k < self.it.stop
    raise Unsupported('loop contract over this iterable')

  def item(self):
    if self.items is not None:
      if self.spec['cut'] == 'split':
        for i, x in enumerate(self.items[:-1]):
          if bool(self.k == i):
            return x
        return self.items[-1]
      return self.s.pick(self.items, self.k)
    return self.k

  def preserved(self, env):
    e = _Env(env)
    e['entry'] = self.entry_env
    if self.k is not None:
      e['__k'] = self.k + 1
    for n, c in self._inv(e, 'preserved'):
      self.s.prove(f'{self.short} invariant preserved: {n}', c)
    if self.spec['variant']:
      v1 = self.spec['variant'](self.s, e)
      self.s.prove(f'{self.short} variant decreases',
                   self.s.And(v1 <= self.v0 - 1, self.v0 >= 0))
    raise PathEnd()


class Contract:
  """Base class: pre / result / post over bound arguments."""
  target = ''
  pure = True
  trusted = False

  def __init__(self, target=None, pre=None, result=None, post=None,
               trusted=None, params=None):
    if target:
      self.target = target
    if pre:
      self.pre = pre
    if result:
      self.result = result
    if post:
      self.post = post
    if trusted is not None:
      self.trusted = trusted
    self._sig = params

  @property
  def short(self):
    return self.target.split(':')[-1]

  def resolve(self):
    return resolve(self.target)

  def bind(self, a, k):
    owner, name, raw = self.resolve()
    f = raw
    if isinstance(raw, property):
      f = raw.fget
    elif isinstance(raw, (staticmethod, classmethod)):
      f = raw.__func__
    sig = inspect.signature(f)
    b = sig.bind(*a, **k)
    b.apply_defaults()
    return types.SimpleNamespace(**b.arguments)

  def pre(self, V, a):
    return []

  def result(self, V, a):
    return None

  def post(self, V, a, r):
    return []


def linearize(cs):
  """Nonlinear products and quotients as uninterpreted (commutative)
  functions: unsat of the result implies unsat of the input."""
  R = z3.RealSort()
  fm = z3.Function('nl!mul', R, R, R)
  fd = z3.Function('nl!div', R, R, R)
  side, cache, found = [], {}, [False]

  def isnum(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)

  def mul(a, b):
    found[0] = True
    a, b = toreal(a), toreal(b)
    r = fm(a, b)
    side.append(r == fm(b, a))
    side.append(z3.Implies(z3.Or(a == 0, b == 0), r == 0))
    side.append(z3.Implies(z3.And(a != 0, b != 0), (r > 0) == (
        (a > 0) == (b > 0))))
    side.append(z3.Implies(a == 1, r == b))
    side.append(z3.Implies(b == 1, r == a))
    return r

  def walk(t):
    key = t.get_id()
    if key in cache:
      return cache[key][1]
    ch = [walk(c) for c in t.children()]
    k = t.decl().kind() if z3.is_app(t) else None
    r = t
    if k == z3.Z3_OP_MUL:
      nums = [c for c in ch if isnum(c)]
      rest = [c for c in ch if not isnum(c)]
      if len(rest) > 1:
        acc = rest[0]
        for c in rest[1:]:
          acc = mul(acc, c)
        for c in nums:
          acc = toreal(c) * acc
        if t.sort() == z3.IntSort():
          acc = z3.ToInt(acc)
        r = acc
      elif ch:
        r = t.decl()(*ch)
    elif k == z3.Z3_OP_DIV and not isnum(ch[1]):
      found[0] = True
      r = fd(ch[0], ch[1])
      side.append(z3.Implies(z3.And(ch[0] != 0, ch[1] != 0), (r > 0) == (
          (ch[0] > 0) == (ch[1] > 0))))
      side.append(z3.Implies(z3.And(ch[0] == 0, ch[1] != 0), r == 0))
      side.append(z3.Implies(z3.And(ch[0] == ch[1], ch[1] != 0), r == 1))
    elif ch:
      try:
        r = t.decl()(*ch)
      except z3.Z3Exception:
        r = z3.substitute(t, *[(a, b) for a, b in zip(t.children(), ch)])
    cache[key] = (t, r)
    return r
  out = [walk(c) for c in cs]
  return out + side, found[0]


# Python folds products of constants in the order they are written, so two
# equal formulas may carry constants which differ in the last place.
ROUNDING = v.ratval(1e-10)
_ROUNDED = {}


def rounded_literals(t):
  """The term with its constants rounded to 12 significant digits."""
  k = t.get_id()
  hit = _ROUNDED.get(k)
  if hit is not None and hit[0].eq(t):
    return hit[1]
  if z3.is_rational_value(t):
    f = t.as_fraction()
    r = t
    if f.denominator > 2**20 or abs(f.numerator) > 2**40:
      try:
        g = fractions.Fraction('%.11e' % float(f))
        r = t if g == f else z3.RealVal(g)
      except OverflowError:
        pass
  elif z3.is_app(t) and t.num_args():
    cs = t.children()
    ds = [rounded_literals(c) for c in cs]
    r = t if all(c.eq(d) for c, d in zip(cs, ds)) else t.decl()(*ds)
  else:
    r = t
  if len(_ROUNDED) > 200000:
    _ROUNDED.clear()
  _ROUNDED[k] = (t, r)
  return r


def ackermannize(e):
  """Replaces UF applications by constants plus congruence constraints."""
  apps = {}
  cache = {}

  def walk(t):
    key = t.get_id()
    if key in cache:
      return cache[key][1]
    ch = [walk(c) for c in t.children()]
    r = t
    if ch:
      if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        lst = apps.setdefault(t.decl().name(), [])
        for old, con in lst:
          if all(x.eq(y) for x, y in zip(old, ch)):
            r = con
            break
        else:
          r = z3.FreshConst(t.sort(), 'ack')
          lst.append((ch, r))
      else:
        try:
          r = t.decl()(*ch)
        except z3.Z3Exception:
          r = z3.substitute(t, *[(a, b) for a, b in zip(t.children(), ch)])
    cache[key] = (t, r)
    return r

  body = walk(e)
  cons = [body]
  for lst in apps.values():
    for i in range(len(lst)):
      for j in range(i):
        cons.append(z3.Implies(
            z3.And(*[x == y for x, y in zip(lst[i][0], lst[j][0])]),
            lst[i][1] == lst[j][1]))
  return z3.And(*cons)


def cvc5_check(solver, timeout_ms):
  txt = '(set-logic ALL)\n' + solver.to_smt2()
  with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
    f.write(txt)
  try:
    r = subprocess.run(
        ['cvc5', f'--tlimit={timeout_ms}', '--nl-ext-tplanes', f.name],
        capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
    out = r.stdout.strip().splitlines()
    return out[0] if out else 'unknown'
  except (subprocess.TimeoutExpired, FileNotFoundError):
    return 'unknown'
  finally:
    os.unlink(f.name)

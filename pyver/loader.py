"""Import hook: loads the code under verification from its current source.

Every module of the packages in PREFIXES is read from disk, parsed, passed
through a mechanical and purely syntactic instrumentation, compiled and executed
by CPython.  The instrumentation keeps every statement of the source; it only

  * routes calls       f(a, b)       ->  __vc__.call(f, a, b)
  * routes a += b      ->  a = __vc__.iop('add', a, b)      (names only)
  * routes subscripts  a[i] (load)   ->  __vc__.getitem(a, i)
  * routes loops       `for`/`while` ->  the same loop, guarded by a test whether
                                         a loop contract is active for it, in
                                         which case the invariant rule is used
  * routes `not e` / comparisons `in`    unchanged (handled by the values)

so that a contract can stand in for a callee, a model for a numeric primitive
and an invariant for a loop.  Outside a verification session every hook is the
identity.  Nothing is dropped: doc strings, annotations, logging calls and
decorators are all executed.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
PREFIXES = ('balloon_learning_environment', 's2sphere')
FILES = {}          # module name -> path, as instrumented in this process
LOOPS = {}          # loop id -> dict(kind, names, lineno, func)


IOPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
        ast.Pow: 'pow', ast.FloorDiv: 'floordiv', ast.Mod: 'mod'}


class _Names(ast.NodeVisitor):
  """Names bound by a list of statements (not descending into scopes)."""

  def __init__(self):
    self.names = []

  def _add(self, n):
    if n not in self.names:
      self.names.append(n)

  def visit_Name(self, node):
    if isinstance(node.ctx, (ast.Store, ast.Del)):
      self._add(node.id)

  def visit_FunctionDef(self, node):
    self._add(node.name)

  visit_AsyncFunctionDef = visit_FunctionDef
  visit_ClassDef = visit_FunctionDef

  def visit_Lambda(self, node):
    pass

  def visit_ListComp(self, node):
    pass

  visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

  def visit_Import(self, node):
    for a in node.names:
      self._add((a.asname or a.name).split('.')[0])

  visit_ImportFrom = visit_Import

  def visit_ExceptHandler(self, node):
    if node.name:
      self._add(node.name)
    self.generic_visit(node)


def bound_names(stmts):
  v = _Names()
  for s in stmts:
    v.visit(s)
  return v.names


def _vc(attr):
  return ast.Attribute(value=ast.Name(id='__vc__', ctx=ast.Load()), attr=attr,
                       ctx=ast.Load())


def _call(attr, args):
  return ast.Call(func=_vc(attr), args=args, keywords=[])


class Instrument(ast.NodeTransformer):

  def __init__(self, modname):
    self.mod = modname
    self.scope = []
    self.counters = {}
    self.in_func = 0
    self.uid = 0
    self.global_names = [set()]

  # -- scopes
  def _scoped(self, node):
    self.scope.append(node.name)
    isf = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef))
    if isf:
      # decorators, defaults and annotations belong to the outer scope, but
      # instrumenting them is harmless.
      self.in_func += 1
      g = set()
      for s in ast.walk(node):
        if isinstance(s, (ast.Global, ast.Nonlocal)):
          g.update(s.names)
      self.global_names.append(g)
    self.generic_visit(node)
    if isf:
      self.in_func -= 1
      self.global_names.pop()
    self.scope.pop()
    return node

  visit_FunctionDef = _scoped
  visit_ClassDef = _scoped

  def visit_AsyncFunctionDef(self, node):
    return self._scoped(node)

  def visit_AnnAssign(self, node):
    # leave annotations alone
    if node.value is not None:
      node.value = self.visit(node.value)
    node.target = self.visit(node.target)
    return node

  def visit_arg(self, node):
    return node

  def visit_Call(self, node):
    self.generic_visit(node)
    if isinstance(node.func, ast.Name) and node.func.id in (
        'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'):
      return node
    if not self.in_func and not self._in_lambda:
      return node
    new = ast.Call(func=_vc('call'), args=[node.func] + node.args,
                   keywords=node.keywords)
    return ast.copy_location(new, node)

  _in_lambda = 0

  def visit_Lambda(self, node):
    self._in_lambda += 1
    self.generic_visit(node)
    self._in_lambda -= 1
    return node

  def visit_Subscript(self, node):
    self.generic_visit(node)
    if isinstance(node.ctx, ast.Load) and (self.in_func or self._in_lambda):
      sl = node.slice
      if isinstance(sl, ast.Slice) or (isinstance(sl, ast.Tuple) and any(
          isinstance(e, (ast.Slice, ast.Starred)) for e in sl.elts)):
        return node
      return ast.copy_location(_call('getitem', [node.value, sl]), node)
    return node

  def visit_AugAssign(self, node):
    self.generic_visit(node)
    op = IOPS.get(type(node.op))
    if op and self.in_func and isinstance(node.target, ast.Name):
      new = ast.Assign(targets=[node.target], value=_call('iop', [
          ast.Constant(op), ast.Name(id=node.target.id, ctx=ast.Load()),
          node.value]))
      ast.copy_location(new, node)
      return ast.fix_missing_locations(new)
    return node

  # -- loops
  def _loop_id(self, node, kind, names):
    q = '.'.join(self.scope)
    n = self.counters.get(q, 0)
    self.counters[q] = n + 1
    lid = f'{self.mod}:{q}#{n}'
    LOOPS[lid] = dict(kind=kind, names=names, lineno=node.lineno, func=q)
    return lid

  def _names_dict(self, names):
    # {'a': __vc__.grab(lambda: a), ...}; unbound locals are skipped.
    keys, vals = [], []
    for n in names:
      keys.append(ast.Constant(n))
      vals.append(_call('grab', [ast.Lambda(
          args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                             kw_defaults=[], defaults=[]),
          body=ast.Name(id=n, ctx=ast.Load()))]))
    return ast.Dict(keys=keys, values=vals)

  def _scope_names(self, node):
    """Local names of the enclosing function usable in the invariant."""
    return []

  def visit_While(self, node):
    if not self.in_func:
      self.generic_visit(node)
      return node
    names = bound_names(node.body + [ast.Expr(node.test)])
    lid = self._loop_id(node, 'while', names)
    self.generic_visit(node)
    return self._emit(node, lid, names, kind='while')

  def visit_For(self, node):
    if not self.in_func:
      self.generic_visit(node)
      return node
    names = bound_names([ast.Assign(targets=[node.target],
                                    value=ast.Constant(0))] + node.body)
    lid = self._loop_id(node, 'for', names)
    self.generic_visit(node)
    return self._emit(node, lid, names, kind='for')

  def _emit(self, node, lid, names, kind):
    if self.global_names[-1] & set(names):
      names = [n for n in names if n not in self.global_names[-1]]
    self.uid += 1
    h = f'__vc_h{self.uid}'
    it = f'__vc_it{self.uid}'
    L = lambda n: ast.Name(id=n, ctx=ast.Load())
    S = lambda n: ast.Name(id=n, ctx=ast.Store())
    pre = []
    if kind == 'for':
      pre.append(ast.Assign(targets=[S(it)], value=node.iter))
      start = _call('loop_enter', [ast.Constant(lid), L(it)])
      plain = ast.For(target=node.target,
                      iter=_call('iterate', [ast.Constant(lid), L(it)]),
                      body=node.body, orelse=node.orelse)
    else:
      start = _call('loop_enter', [ast.Constant(lid), ast.Constant(None)])
      plain = ast.While(
          test=_call('loop_tick', [ast.Constant(lid), ast.Lambda(
              args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                 kw_defaults=[], defaults=[]),
              body=node.test)]) if False else node.test,
          body=[ast.Expr(_call('tick', [ast.Constant(lid)]))] + node.body,
          orelse=node.orelse)
    pre.append(ast.Assign(targets=[S(h)], value=start))
    # Contract version (invariant rule):
    #   h.entry({..}); t = h.havoc(); a, b = t ; h.assume({...})
    #   if h.cond(test): for _ in (0,): [target = h.item()]; BODY
    #                    else: h.preserved({...})  # never returns
    #   else: ORELSE
    cb = [ast.Expr(ast.Call(func=ast.Attribute(L(h), 'entry', ast.Load()),
                            args=[self._names_dict(names)], keywords=[]))]
    for n in names:
      cb.append(ast.If(
          test=ast.Call(func=ast.Attribute(L(h), 'has', ast.Load()),
                        args=[ast.Constant(n)], keywords=[]),
          body=[ast.Assign(targets=[S(n)], value=ast.Call(
              func=ast.Attribute(L(h), 'havoc', ast.Load()),
              args=[ast.Constant(n)], keywords=[]))],
          orelse=[]))
    cb.append(ast.Expr(ast.Call(
        func=ast.Attribute(L(h), 'assume', ast.Load()),
        args=[self._names_dict(names)], keywords=[])))
    body = list(node.body)
    if kind == 'for':
      test = ast.Call(func=ast.Attribute(L(h), 'more', ast.Load()), args=[],
                      keywords=[])
      body = [ast.Assign(targets=[node.target], value=ast.Call(
          func=ast.Attribute(L(h), 'item', ast.Load()), args=[],
          keywords=[]))] + body
    else:
      test = node.test
    import copy
    once = ast.For(
        target=S(f'__vc_o{self.uid}'),
        iter=ast.Tuple([ast.Constant(0)], ast.Load()),
        body=copy.deepcopy(body),
        orelse=[ast.Expr(ast.Call(
            func=ast.Attribute(L(h), 'preserved', ast.Load()),
            args=[self._names_dict(names)], keywords=[]))])
    cb.append(ast.If(test=copy.deepcopy(test), body=[once],
                     orelse=copy.deepcopy(node.orelse)))
    sel = ast.If(test=ast.Compare(left=L(h), ops=[ast.Is()],
                                  comparators=[ast.Constant(None)]),
                 body=[plain], orelse=cb)
    out = pre + [sel]
    for s in out:
      ast.copy_location(s, node)
      ast.fix_missing_locations(s)
    return out


class _Loader(importlib.machinery.SourceFileLoader):

  def get_code(self, fullname):
    path = self.get_filename(fullname)
    src = self.get_data(path)
    tree = ast.parse(src, path)
    tree = Instrument(fullname).visit(tree)
    # `import __vc__` must come after the doc string and __future__ imports.
    i = 0
    for i, s in enumerate(tree.body):
      if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
        continue
      if isinstance(s, ast.ImportFrom) and s.module == '__future__':
        continue
      break
    imp = ast.parse('from pyver import runtime as __vc__').body[0]
    tree.body.insert(i, imp)
    ast.fix_missing_locations(tree)
    FILES[fullname] = path
    return compile(tree, path, 'exec', dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):

  def find_spec(self, fullname, path, target=None):
    if fullname.split('.')[0] not in PREFIXES:
      return None
    if fullname.endswith('_test'):
      return None
    spec = importlib.machinery.PathFinder.find_spec(fullname, path)
    if spec is None or not isinstance(
        spec.loader, importlib.machinery.SourceFileLoader):
      return spec
    spec.loader = _Loader(spec.loader.name, spec.loader.path)
    return spec


def use_repo():
  """Puts REPO first on sys.path, ahead of the editable-install finder."""
  sys.dont_write_bytecode = True
  if REPO not in sys.path:
    sys.path.insert(0, REPO)


def install():
  use_repo()
  sys.meta_path.insert(0, _Finder())

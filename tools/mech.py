"""Development aid: mechanical behaviour-preserving rewrites of whole modules;
no obligation may report a difference on them.

  python3 tools/mech.py [module substring] [transform,transform]"""
import ast
import builtins
import copy
import multiprocessing
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import obl, props  # pylint: disable=g-import-not-at-top

FN = (ast.FunctionDef,)


def stmts(f):
  """Statement lists of a function, nested functions excluded."""
  todo = [f]
  while todo:
    n = todo.pop()
    for k in ('body', 'orelse', 'finalbody'):
      b = getattr(n, k, None)
      if isinstance(b, list):
        yield n, k, b
        todo.extend(x for x in b if not isinstance(x, FN + (ast.ClassDef,)))
    for h in getattr(n, 'handlers', []):
      todo.append(h)
    for h in getattr(n, 'cases', []):
      todo.append(h)


def functions(tree):
  return [n for n in ast.walk(tree) if isinstance(n, FN)]


def parse(s):
  return ast.parse(s).body


COUNT = [0]


def fresh(p):
  COUNT[0] += 1
  return '%s_%d' % (p, COUNT[0])


def rewrite(tree, one):
  def go(n, f):
    for k in ('body', 'orelse', 'finalbody'):
      b = getattr(n, k, None)
      if isinstance(b, list):
        out = []
        for s in b:
          if not isinstance(s, FN + (ast.ClassDef,)):
            go(s, f)
          r = one(s, f, n)
          out.extend(r if r is not None else [s])
        setattr(n, k, out)
    for h in getattr(n, 'handlers', []) + getattr(n, 'cases', []):
      go(h, f)
  for f in functions(tree):
    go(f, f)
  return tree


def t_while(tree):
  def one(s, f, n):
    if not isinstance(s, ast.For) or s.orelse:
      return None
    q, k = fresh('seq'), fresh('pos')
    w = parse('%s = list(%s)\n%s = 0\nwhile %s < len(%s):\n  x = %s[%s]\n  %s += 1\n' % (q, ast.unparse(s.iter), k, k, q, q, k, k))
    w[2].body[0].targets = [s.target]
    w[2].body.extend(s.body)
    return w
  return rewrite(tree, one)


def t_index(tree):
  def one(s, f, n):
    if not isinstance(s, ast.For) or s.orelse:
      return None
    it = s.iter
    if isinstance(it, ast.Call) and ast.unparse(it.func) == 'enumerate' and isinstance(it.args[0], ast.Name) and len(it.args) == 1 and isinstance(s.target, ast.Tuple):
      w = parse('for i in range(len(%s)):\n  x = %s[i]\n' % (it.args[0].id, it.args[0].id))
      w[0].target = s.target.elts[0]
      w[0].body[0] = ast.Assign([s.target.elts[1]], ast.Subscript(it.args[0], copy.deepcopy(s.target.elts[0]), ast.Load()))
      for x in ast.walk(w[0].body[0].value.slice):
        if hasattr(x, 'ctx'):
          x.ctx = ast.Load()
    elif isinstance(it, (ast.Name, ast.Attribute)):
      k, q = fresh('pos'), fresh('seq')
      w = parse('%s = list(%s)\nfor %s in range(len(%s)):\n  x = %s[%s]\n' % (q, ast.unparse(it), k, q, q, k))
      w[1].body[0].targets = [s.target]
    else:
      return None
    w[-1].body.extend(s.body)
    return w
  return rewrite(tree, one)


def t_invert(tree):
  def one(s, f, n):
    if isinstance(s, ast.If) and s.orelse:
      s.test = ast.UnaryOp(ast.Not(), s.test)
      s.body, s.orelse = s.orelse, s.body
    return None
  return rewrite(tree, one)


def t_guard(tree):
  def one(s, f, n):
    if isinstance(s, (ast.For, ast.While)) and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse:
      i = s.body.pop()
      s.body.append(ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], []))
      s.body.extend(i.body)
    return None
  return rewrite(tree, one)


def t_nest(tree):
  def one(s, f, n):
    if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
      b = s.body
      for c in reversed(s.test.values):
        b = [ast.If(c, b, [])]
      return b
    return None
  return rewrite(tree, one)


def t_result(tree):
  def one(s, f, n):
    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
      q = fresh('result')
      w = parse('%s = 0\nreturn %s' % (q, q))
      w[0].value = s.value
      return w
    return None
  return rewrite(tree, one)


def t_cond(tree):
  def one(s, f, n):
    if isinstance(s, ast.If):
      q = fresh('cond')
      w = parse('%s = 0' % q)
      w[0].value = s.test
      s.test = ast.Name(q, ast.Load())
      return w + [s]
    return None
  return rewrite(tree, one)


def t_aug(tree):
  def one(s, f, n):
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and (
        isinstance(s.value, ast.Constant) or isinstance(s.value, ast.Call) and ast.unparse(s.value.func) == 'len'):
      return [ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))]
    return None
  return rewrite(tree, one)


def t_elif(tree):
  """Branches that end in a return or continue need no else."""
  def one(s, f, n):
    if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
      r = s.orelse
      s.orelse = []
      return [s] + r
    return None
  return rewrite(tree, one)


def t_comp(tree):
  def one(s, f, n):
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
      if isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name):
        return None
      g = s.value.generators[0]
      q = fresh('items')
      w = parse('%s = []\nfor x in y:\n  %s.append(0)\n%s' % (q, q, 'return ' + q if isinstance(s, ast.Return) else '%s = %s' % (s.targets[0].id, q)))
      used = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)}
      names = [x for x in ast.walk(g.target) if isinstance(x, ast.Name)]
      mp = {x.id: fresh(x.id) for x in names}
      class R(ast.NodeTransformer):
        def visit_Name(self, x):
          return ast.Name(mp.get(x.id, x.id), x.ctx)
      w[1].target, w[1].iter = R().visit(g.target), g.iter
      w[1].body[0].value.args = [R().visit(s.value.elt)]
      for c in reversed(g.ifs):
        w[1].body = [ast.If(R().visit(c), w[1].body, [])]
      return w
    return None
  return rewrite(tree, one)


class Exprs(ast.NodeTransformer):
  pass


def t_isinst(tree):
  class X(ast.NodeTransformer):
    def visit_Call(self, c):
      self.generic_visit(c)
      if ast.unparse(c.func) == 'isinstance' and isinstance(c.args[1], ast.Tuple):
        return ast.BoolOp(ast.Or(), [ast.Call(c.func, [copy.deepcopy(c.args[0]), t], []) for t in c.args[1].elts])
      return c
  return X().visit(tree)


def t_demorgan(tree):
  class X(ast.NodeTransformer):
    def visit_If(self, s):
      self.generic_visit(s)
      if isinstance(s.test, ast.BoolOp):
        op = ast.And() if isinstance(s.test.op, ast.Or) else ast.Or()
        s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in s.test.values]))
      return s
  return X().visit(tree)


def t_flip(tree):
  sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
  class X(ast.NodeTransformer):
    def visit_Compare(self, c):
      self.generic_visit(c)
      if len(c.ops) == 1 and type(c.ops[0]) in sw:
        return ast.Compare(c.comparators[0], [sw[type(c.ops[0])]()], [c.left])
      return c
  return X().visit(tree)


def t_ternary(tree):
  """x = a if c else b as statements; and the other way round."""
  def one(s, f, n):
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
      a, b = copy.deepcopy(s), copy.deepcopy(s)
      a.value, b.value = s.value.body, s.value.orelse
      return [ast.If(s.value.test, [a], [b])]
    if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(
        isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) for x in (s.body[0], s.orelse[0])):
      if s.body[0].targets[0].id == s.orelse[0].targets[0].id:
        return [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
    return None
  return rewrite(tree, one)


def t_rename(tree):
  for f in functions(tree):
    inner = [x for n in ast.walk(f) if n is not f and isinstance(n, FN + (ast.Lambda, ast.ClassDef)) for x in ast.walk(n)]
    if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f)):
      continue
    a = f.args
    params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    shared = {x.id for x in inner if isinstance(x, ast.Name)} | {x.name for x in inner if isinstance(x, FN)} | {x.arg for x in inner if isinstance(x, ast.arg)}
    ids = set(map(id, inner))
    loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in ids} - params - shared
    for x in ast.walk(f):
      if isinstance(x, ast.Name) and x.id in loc and id(x) not in ids:
        x.id = 'my_' + x.id
  return tree


def t_append(tree):
  def one(s, f, n):
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'append' and isinstance(s.value.func.value, ast.Name):
      name = s.value.func.value.id
      own = [x for _, _, b in stmts(f) for x in b if isinstance(x, (ast.Assign, ast.AnnAssign)) and ast.unparse(x.targets[0] if isinstance(x, ast.Assign) else x.target) == name and x.value is not None and ast.unparse(x.value) == '[]']
      if own:
        return parse('%s.extend([%s])' % (name, ast.unparse(s.value.args[0])))
    return None
  return rewrite(tree, one)


def t_kw(tree):
  """Positional arguments of functions of the module by keyword."""
  defs = {d.name: d for d in tree.body if isinstance(d, ast.FunctionDef)}
  class X(ast.NodeTransformer):
    def visit_Call(self, c):
      self.generic_visit(c)
      if isinstance(c.func, ast.Name) and c.func.id in defs and not any(isinstance(a, ast.Starred) for a in c.args):
        d = defs[c.func.id]
        ps = [a.arg for a in d.args.args]
        if len(c.args) <= len(ps) and not d.args.posonlyargs:
          c.keywords = [ast.keyword(p, a) for p, a in zip(ps, c.args)] + c.keywords
          c.args = []
      return c
  return X().visit(tree)


def t_body(tree):
  """Loop bodies that only touch containers as local functions."""
  def one(s, f, n):
    if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, (ast.Name, ast.Tuple)):
      bad = (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.AugAssign)
      if any(isinstance(x, bad) for b in s.body for x in ast.walk(b)):
        return None
      loc = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
      loc |= {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
      inside = set(map(id, ast.walk(s)))
      if any(isinstance(x, ast.Name) and x.id in loc and id(x) not in inside for x in ast.walk(f)):
        return None
      q = fresh('handle')
      names = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]
      w = parse('def %s(%s):\n  pass\nfor x in y:\n  %s(%s)' % (q, ', '.join(names), q, ', '.join(names)))
      w[0].body = s.body
      w[1].target, w[1].iter = s.target, s.iter
      return w
    return None
  return rewrite(tree, one)


def t_method(tree):
  """Each function's code moved into a helper it calls."""
  for d in list(tree.body):
    if isinstance(d, ast.FunctionDef) and not d.decorator_list and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(d)):
      a = d.args
      if a.vararg or a.kwarg or a.posonlyargs:
        continue
      h = copy.deepcopy(d)
      h.name = '_do_' + d.name
      h.args.defaults, h.args.kw_defaults = [], [None] * len(a.kwonlyargs)
      call = 'return %s(%s)' % (h.name, ', '.join([x.arg for x in a.args] + ['%s=%s' % (x.arg, x.arg) for x in a.kwonlyargs]))
      doc = d.body[:1] if isinstance(d.body[0], ast.Expr) and isinstance(d.body[0].value, ast.Constant) else []
      d.body = doc + parse(call)
      tree.body.insert(tree.body.index(d), h)
  return tree


T = {k[2:]: v for k, v in globals().items() if k.startswith('t_')}


def job(args):
  mod, name = args
  tmp = tempfile.mkdtemp(prefix='mech')
  out = []
  try:
    shutil.copytree('/repo/r_u_sure', tmp + '/r_u_sure')
    f = tmp + '/' + mod.replace('.', '/') + '.py'
    src = open(f).read()
    base = ast.unparse(ast.parse(src))
    tree = ast.parse(src)
    for t in name.split('+'):
      tree = ast.parse(ast.unparse(ast.fix_missing_locations(T[t](tree))))
    new = ast.unparse(tree)
    if new == base:
      return mod, name, None, 0, []
    open(f, 'w').write(new)
    if os.environ.get('KEEP'):
      open('/tmp/mech_%s_%s.py' % (mod.split('.')[-1], name), 'w').write(new)
    R = obl.load([(tmp, 'r_u_sure'), (obl.ROOTS[1])])
    n = 0
    for pid, p in props.PROPS.items():
      obs = [o for o in p['obligations'] if o.code.split(':')[0] == mod]
      res = obl.settle(obs, [obl.run(R, o, 40) if isinstance(o, obl.Ob) else o.run(R) for o in obs], R)
      for o, r in zip(obs, res):
        n += r['verdict'] != 'eq'
        if r['verdict'] == 'diff' or os.environ.get('ALL') and r['verdict'] != 'eq':
          out.append('%s %s %s %s' % (pid, o.code.split(':')[1], r['verdict'].upper(), str(r['msg'])[:int(os.environ.get('W', 200))]))
  except Exception as e:  # pylint: disable=broad-except
    out.append('failed: %r' % e)
    n = -1
  finally:
    shutil.rmtree(tmp)
  return mod, name, True, n, out


def main():
  pat = sys.argv[1] if len(sys.argv) > 1 else ''
  ts = sys.argv[2].split(',') if len(sys.argv) > 2 else sorted(T)
  mods = sorted({o.code.split(':')[0] for p in props.PROPS.values() for o in p['obligations']})
  jobs = [(m, t) for m in mods if pat in m and m.startswith('r_u_sure') for t in ts]
  with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
    for mod, name, ran, n, out in pool.imap_unordered(job, jobs, chunksize=1):
      if ran:
        print(mod.split('.')[-1], name, 'not eq:', n, flush=True)
        for x in sorted(set(out)):
          print('   !!', mod.split('.')[-1], name, x, flush=True)


if __name__ == '__main__':
  main()

"""Development aid: mutates a repository function's syntax tree in memory and
reports which obligations notice (nothing is executed or written)."""
import ast
import copy
import os
import sys
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import obl  # pylint: disable=g-import-not-at-top

SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult}


def sites(node):
  """Yields (description, apply(copy-of-tree node list) )."""
  nodes = list(ast.walk(node))
  for i, n in enumerate(nodes):
    ln = getattr(n, 'lineno', 0)
    if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
      yield i, ln, 'cmp', lambda m: m.ops.__setitem__(0, SWAP[type(m.ops[0])]())
    if isinstance(n, ast.BoolOp):
      yield i, ln, 'bool', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And())
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
      yield i, ln, 'bin', lambda m: setattr(m, 'op', BIN[type(m.op)]())
    if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
      yield i, ln, 'aug', lambda m: setattr(m, 'op', BIN[type(m.op)]())
    if isinstance(n, ast.Constant):
      if isinstance(n.value, bool):
        yield i, ln, 'const', lambda m: setattr(m, 'value', not m.value)
      elif isinstance(n.value, (int, float)):
        yield i, ln, 'const', lambda m: setattr(m, 'value', m.value + 1)
    if isinstance(n, ast.If):
      yield i, ln, 'negif', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test))
    if isinstance(n, ast.Call) and len(n.args) >= 2:
      yield i, ln, 'swapargs', lambda m: setattr(m, 'args', [m.args[1], m.args[0]] + m.args[2:])
    if isinstance(n, ast.Call) and len(n.keywords) >= 2:
      def sw(m):
        a, b = m.keywords[0], m.keywords[1]
        a.value, b.value = b.value, a.value
      yield i, ln, 'swapkw', sw
    if isinstance(n, ast.Call) and n.keywords:
      yield i, ln, 'dropkw', lambda m: setattr(m, 'keywords', m.keywords[:-1])
    for fld in ('body', 'orelse'):
      b = getattr(n, fld, None)
      if isinstance(b, list):
        for j, s in enumerate(b):
          if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
          if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.For, ast.If, ast.Return)):
            def dele(m, fld=fld, j=j):
              getattr(m, fld)[j] = ast.Pass()
            yield i, s.lineno, 'del-' + type(s).__name__, dele


def mutants(fn):
  for i, ln, kind, ap in list(sites(fn)):
    c = copy.deepcopy(fn)
    m = list(ast.walk(c))[i]
    try:
      ap(m)
    except Exception:  # pylint: disable=broad-except
      continue
    ast.fix_missing_locations(c)
    yield ln, kind, c


def job(args):
  qual, idx, obs = args
  R = obl.load()
  fi = R.func(qual)
  ms = list(mutants(fi.node))
  ln, kind, c = ms[idx]
  before = ast.unparse(fi.node)
  after = ast.unparse(c)
  fi.node = c
  out = []
  for r in obl.settle(obs, [obl.run(R, o, limit=60) for o in obs], R):
    out.append((r['verdict'], r['msg'][:200]))
  import difflib
  d = [l for l in difflib.unified_diff(before.split('\n'), after.split('\n'), lineterm='', n=0) if l[:1] in '+-' and l[:3] not in ('+++', '---')]
  v = 'diff' if any(x[0] == 'diff' for x in out) else 'unk' if any(x[0] != 'eq' for x in out) else 'eq'
  return ln, kind, v, ' '.join(d)[:200], '; '.join(x[1] for x in out if x[0] != 'eq')[:200]


def main():
  from sa import props
  qual = sys.argv[1]
  verbose = '-v' in sys.argv
  R = obl.load()
  fi = R.func(qual)
  sel = [a for a in sys.argv[2:] if not a.startswith('-')]
  obs = [o for pid, p in props.PROPS.items() for o in p['obligations'] if (o.code == qual if not sel else o.code in sel)]
  obs = list({(o.code, str(o.part)): o for o in obs if isinstance(o, obl.Ob)}.values())
  n = len(list(mutants(fi.node)))
  with mp.Pool(8) as pool:
    res = pool.map(job, [(qual, i, obs) for i in range(n)], chunksize=4)
  import collections
  c = collections.Counter(r[2] for r in res)
  print(qual, dict(c))
  for r in res:
    if r[2] != 'diff' or verbose:
      print('  ', r)


if __name__ == '__main__':
  main()

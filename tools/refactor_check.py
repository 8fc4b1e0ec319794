"""Development aid: splices behaviour-preserving rewrites into an in-memory copy
of the repository and reports any obligation that is not quiet.

A rewrite file starts with '# target: <module>'; each top-level function (or
'Class.method' given as 'def Class__method') replaces the one of that name, new
functions are added.  '#---' separates independent variants."""
import ast
import os
import shutil
import sys
import tempfile
import glob
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import obl, props  # pylint: disable=g-import-not-at-top


def splice(src, patch):
  tree = ast.parse(src)
  lines = src.split('\n')
  edits = []
  extra = []
  for d in ast.parse(patch).body:
    seg = ast.get_source_segment(patch, d)
    if isinstance(d, ast.FunctionDef) and '__' in d.name[1:] and not d.name.startswith('_'):
      c, m = d.name.split('__', 1)
      cls = [x for x in tree.body if isinstance(x, ast.ClassDef) and x.name == c]
      if cls:
        if d.decorator_list:
          seg = patch.split('\n')[d.decorator_list[0].lineno - 1:d.end_lineno]
          seg = '\n'.join(seg)
        seg = seg.replace(d.name, m, 1)
        body = '\n'.join('  ' + l if l else l for l in seg.split('\n'))
        t = [x for x in cls[0].body if isinstance(x, ast.FunctionDef) and x.name == m]
        if t:
          a = t[0].decorator_list[0].lineno if t[0].decorator_list else t[0].lineno
          edits.append((a, t[0].end_lineno, body))
        else:
          edits.append((cls[0].end_lineno + 1, cls[0].end_lineno, body))
        continue
    name = getattr(d, 'name', None)
    if name is None and isinstance(d, ast.Assign):
      name = d.targets[0].id
    if getattr(d, 'decorator_list', None):
      seg = '\n'.join(patch.split('\n')[d.decorator_list[0].lineno - 1:d.end_lineno])
    t = [x for x in tree.body if getattr(x, 'name', None) == name or (isinstance(x, ast.Assign) and getattr(x.targets[0], 'id', None) == name)]
    if t and name:
      a = t[0].decorator_list[0].lineno if getattr(t[0], 'decorator_list', None) else t[0].lineno
      edits.append((a, t[0].end_lineno, seg))
    else:
      extra.append(seg)
  for a, b, s in sorted(edits, reverse=True):
    lines[a - 1:b] = s.split('\n')
  # new helpers go before the first function
  out = '\n'.join(lines)
  if extra:
    tree = ast.parse(out)
    last_imp = max([x.end_lineno for x in tree.body if isinstance(x, (ast.Import, ast.ImportFrom))] or [0])
    ls = out.split('\n')
    ls[last_imp:last_imp] = ['', ''] + '\n\n'.join(extra).split('\n')
    out = '\n'.join(ls)
  ast.parse(out)
  return out


def variants(path):
  text = open(path).read()
  target = text.split('\n', 1)[0].split(':', 1)[1].strip()
  for i, v in enumerate(text.split('\n', 1)[1].split('#---')):
    if v.strip():
      yield target, i, v


def main():
  only = os.environ.get("ONLY")
  pats = sys.argv[1:]
  bad = 0
  for path in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'refactors', '*.py'))):
    if pats and not any(p in path for p in pats):
      continue
    for target, i, v in variants(path):
      if only and str(i) not in only.split(","):
        continue
      tmp = tempfile.mkdtemp(prefix='refac')
      try:
        shutil.copytree('/repo/r_u_sure', tmp + '/r_u_sure')
        f = tmp + '/' + target.replace('.', '/') + '.py'
        src = open(f).read()
        new = splice(src, v)
        open(f, 'w').write(new)
        if os.environ.get('WRITE'):
          open('/tmp/last_refactor.py', 'w').write(new)
        R = obl.load([(tmp, 'r_u_sure'), (obl.ROOTS[1])])
        for pid, p in props.PROPS.items():
          obs = [o for o in p['obligations'] if set(p.get('modules', ())) & {target} or o.code.split(':')[0] == target]
          for o, r in zip(obs, obl.settle(obs, [obl.run(R, o) if isinstance(o, obl.Ob) else o.run(R) for o in obs], R)):
            if r['verdict'] != 'eq':
              print(os.path.basename(path), i, pid, o.code.split(':')[1], r['verdict'].upper(), r['msg'][:int(os.environ.get('W', 300))])
              bad += r['verdict'] == 'diff'
      finally:
        shutil.rmtree(tmp)
  print('diffs on behaviour-preserving rewrites:', bad)


if __name__ == '__main__':
  main()

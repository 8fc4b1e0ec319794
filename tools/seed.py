"""tools/seed.py DIR: confirm /verif/seeded/<id>; or tools/seed.py new ID PROP FILE  < spec (python literal dict)."""
import os, sys, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD:$D" timeout 200 /opt/venv/bin/python "$D/demo.py"\n'


def sh(c, cwd):
  return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)


def create(id, prop, edits, demo, needs, breaks, stub=False):
  d = os.path.join(V, 'seeded', id)
  os.makedirs(d, exist_ok=True)
  t = tempfile.mkdtemp(prefix='seed')
  r = os.path.join(t, 'repo')
  sh('cp -a /repo %s' % r, '/')
  for f, old, new in edits:
    p = os.path.join(r, 'r_u_sure', f)
    s = open(p).read()
    assert s.count(old) == 1, (id, f, s.count(old))
    open(p, 'w').write(s.replace(old, new))
  open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', r).stdout)
  open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
  open(os.path.join(d, 'demo.py'), 'w').write(('import numba_stub  # stands in for the numba package, which is not installed\n' if stub else '') + demo.strip() + '\n')
  if stub:
    shutil.copy(os.path.join(V, 'tools', 'numba_stub.py'), d)
  json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
  shutil.rmtree(t)
  return confirm(id)


def confirm(id):
  d = os.path.join(V, 'seeded', id)
  a = sh('bash %s/demo.sh' % d, '/repo')
  t = tempfile.mkdtemp(prefix='seed')
  r = os.path.join(t, 'repo')
  sh('cp -a /repo %s' % r, '/')
  ap = sh('git apply %s/patch.diff' % d, r)
  c = sh('/opt/venv/bin/python -m compileall -q r_u_sure', r)
  tests = ' '.join(['r_u_sure/parsing/pseudo_parser/stack_parser_test.py', 'r_u_sure/parsing/pseudo_parser/utilities_test.py',
                    'r_u_sure/parsing/sequence_from_pseudo_parse_test.py', 'r_u_sure/tree_structure/sequence_node_helpers_test.py',
                    'r_u_sure/tree_structure/transforms_test.py'])
  te = sh('PYTHONPATH=$PWD /opt/venv/bin/python -m pytest -q %s' % tests, r)
  b = sh('bash %s/demo.sh' % d, r)
  shutil.rmtree(t)
  ok = a.returncode == 0 and ap.returncode == 0 and c.returncode == 0 and b.returncode not in (0, 124) and ' failed' not in te.stdout and te.returncode == 0
  print(id, 'OK' if ok else 'BAD', 'clean=%d apply=%d compile=%d tests=%d bug=%d' % (a.returncode, ap.returncode, c.returncode, te.returncode, b.returncode))
  if not ok:
    print((a.stdout + a.stderr)[-600:] if a.returncode else '', ap.stderr[-300:], te.stdout[-500:] if te.returncode else '', )
  else:
    print('   ', (b.stderr or b.stdout).strip().split('\n')[-1][:150])
  return ok


def caught(id):
  d = os.path.join(V, 'seeded', id)
  prop = json.load(open(d + '/meta.json'))['property']
  sh('git apply %s/patch.diff' % d, '/repo')
  try:
    r = sh('python3 sa/check.py %s --tier quick' % prop, V)
  finally:
    sh('git checkout -- .', '/repo')
  print(id, prop, 'CAUGHT' if r.returncode == 1 else 'missed (%d)' % r.returncode)
  return r


if __name__ == '__main__':
  ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
  for i in ids:
    {'confirm': confirm, 'caught': caught}[sys.argv[1]](i)

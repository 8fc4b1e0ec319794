"""Runs one obligation: summary of a repository function against its reference."""
import copy
import os
import signal
import time
from . import repo as rp
from . import conds as cd
from . import interp as ip
from . import compare as cm
from . import terms as tm
from .errors import Abort
from .state import State

ROOTS = [('/repo', 'r_u_sure'), ('/verif', 'spec')]


class Timeout(Exception):
  pass


def load(roots=None):
  R = rp.Repo(roots or ROOTS)
  cd.REPO[0] = R
  return R


class Ob:
  """code / spec are 'module:func'; opaque: extra functions kept uninterpreted."""

  def __init__(self, code, spec, opaque=(), emitters=None, options=None, unordered=(), what='', part=None, cpart=None, inner=(), free=()):
    self.code, self.spec = code, spec
    self.opaque, self.emitters = tuple(opaque), emitters
    self.options = options or {}
    self.unordered = unordered
    self.what = what
    self.part = part           # ('inner', name) / ('loop', k): in the reference
    self.cpart = cpart or part
    self.inner = tuple(inner)  # nested functions kept uninterpreted
    self.free = tuple(free)    # variables nested functions share and change


def syms_for(R, fi, si, interp):
  """Parameter symbols shared by both sides, typed by the reference's annotations."""
  out = {}
  cparams = interp.param_list(fi.node)
  sparams = interp.param_list(si.node)
  names = {p[0] for p in cparams}
  for i, (name, kind, d, ann) in enumerate(sparams):
    if i == 0 and name in ('self', 'cls') and si.cls is None and fi.cls is not None:
      ty = ('cls', fi.cls.qual)
    else:
      ty = cd.resolve_ann(ann, si.module) if ann is not None else None
    s = tm.sym('$' + name, ty)
    if i == 0 and name == 'cls' and fi.cls is not None:
      s = tm.T('cls', fi.cls.qual)
    out[i] = s
    if name in names:
      out[name] = s
  return out


def defaults(R, fi, si, I1, I2):
  """Default argument values are part of the contract."""
  cp = {p[0]: p for p in I2.param_list(fi.node)}
  for name, _, d, _ in I1.param_list(si.node):
    if d is None or name not in cp:
      continue
    e = cp[name][2]
    if e is None:
      return cm.Res(cm.DIFF, 'parameter %s lost its default' % name)
    vals = []
    for I, f, nd in ((I1, si, d), (I2, fi, e)):
      s = State()
      vals.append(I.reify(I.ev(nd, s, I.new_frame(None, f.module, None)), s))
    r = cm.Comparer(*vals).run()
    if r.v == cm.DIFF:
      return cm.Res(cm.DIFF, 'default of %s: %s' % (name, r.msg))
  return None


def swap(a, b, ob, I1, own, C):
  """The one call that has other arguments, if that is all there is."""
  ca = {t for t in cm.subterms(a) if t.op == 'call'}
  cb = {t for t in cm.subterms(b) if t.op == 'call'}
  ca, cb = ca - cb, cb - ca
  if not ca or not cb or len(ca) * len(cb) > 2000:
    return None
  for x in sorted(ca, key=lambda t: t._size)[:4]:
    for y in sorted(cb, key=lambda t: t._size)[:4]:
      if x.args[0] is not y.args[0] or cm.Comparer(x, y).run().v != cm.DIFF:
        continue
      D = cm.Comparer(a, tm.replace_terms(b, {y: x}), unordered=ob.unordered)
      D.in_step = C.in_step
      D.counts = tuple(tm.replace_terms(n, {y: x}) if isinstance(n, tm.T) else n for n in C.counts)
      if D.run([c for rs in I1.ranges[:own] for c in rs]).v == cm.EQ:
        return (tm.show(x), tm.show(y))
  return None


def run(R, ob, limit=100):
  """-> dict(verdict, msg, stats)"""
  t0 = time.time()
  res = {'code': ob.code, 'spec': ob.spec, 'what': ob.what}

  def on_alarm(*_):
    raise Timeout()

  old = signal.signal(signal.SIGALRM, on_alarm)
  signal.alarm(limit)
  try:
    fi, si = R.func(ob.code), R.func(ob.spec)
    if si is None:
      raise RuntimeError('reference %s missing' % ob.spec)
    if fi is None:
      res.update(verdict='missing', msg='anchor not found')
      return res
    opq = set(ob.opaque) | {ob.code}
    I1 = ip.Interp(R, opaque=opq, emitters=ob.emitters, options=dict(ob.options, side='reference'))
    syms = syms_for(R, fi, si, I1)
    ps = {}
    a = I1.summary(si, syms, part=ob.part, part_syms=ps, inner=ob.inner, free=ob.free)
    I2 = ip.Interp(R, opaque=opq, emitters=ob.emitters, options=ob.options)
    b = I2.summary(fi, syms, part=ob.cpart, part_syms=ps, inner=ob.inner, free=ob.free)
    if b is None:
      res.update(verdict='missing', msg='part %s not found' % (ob.cpart,))
      return res
    if ob.options.get('markup'):
      from . import seqops as so
      a, b = so.markup(a, {}), so.markup(b, {})
    C = cm.Comparer(a, b, unordered=ob.unordered)
    # where in the loops this piece of the reference is
    own = I1.own if ob.part and ob.part[-1][0] != 'flow' else len(I1.ranges)
    C.counts = (I1.count, I2.count)
    C.in_step = [c for rs in I1.ranges[own:] for c in rs]
    r = C.run([c for rs in I1.ranges[:own] for c in rs])
    if r.v != cm.EQ and ob.part:
      res['swap'] = swap(a, b, ob, I1, own, C)
    if r.v == cm.UNK and ob.part and (ob.part[-1][0] in ('loop', 'step') or ob.part[-1][0] == 'flow' and ob.part[0][0] == 'step') and not ob.options.get('generic'):
      ob2 = copy.copy(ob)
      ob2.options = dict(ob.options, generic=True)
      r2 = run(R, ob2, limit)
      signal.signal(signal.SIGALRM, on_alarm)
      signal.alarm(limit)
      if r2['verdict'] == 'diff':
        r = cm.Res(cm.DIFF, r2['msg'])
      if r2['verdict'] == 'eq' and len(ob.part) > 1 and ob.part[-1][0] == 'step':
        r = cm.Res(cm.EQ, '')   # a piece of a loop's body, whatever element the loop is at
    if r.v != cm.DIFF:
      d = defaults(R, fi, si, I1, I2)
      if d is not None:
        r = d
    res.update(verdict=['eq', 'unk', 'diff'][r.v], msg=r.msg, steps=I2.steps, loops=I2.nloops,
               branches=I2.nbranches, inlined=sorted(I2.visited), cases=C.cases, leaves=C.leaves,
               file=fi.module.path, line=fi.node.lineno)
  except Timeout:
    res.update(verdict='unk', msg='time limit')
  except Abort as e:
    res.update(verdict='unk', msg='outside the analysed fragment: %s' % e)
  except RecursionError:
    res.update(verdict='unk', msg='recursion limit')
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    res.update(verdict='unk', msg='analysis error: %s %s at %s:%d' % (type(e).__name__, e, tb[-1].name, tb[-1].lineno), error=True)
  finally:
    signal.alarm(0)
    signal.signal(signal.SIGALRM, old)
    res['secs'] = round(time.time() - t0, 2)
  return res


def whole(t, memo):
  """A list of all elements of a given list is that list."""
  if not isinstance(t, tm.T):
    return tuple(whole(x, memo) for x in t) if isinstance(t, tuple) else t
  r = memo.get(t)
  if r is None:
    r = tm.rebuild(t, [whole(x, memo) for x in t.args]) if t.args else t
    if r.op == 'lst' and r.args[0] and len(r.args[0]) == cd.SIZE[0] and all(s.op == 'e' and s.args[0].op == 'item' for s in r.args[0]):
      b = r.args[0][0].args[0].args[0]
      if cd.sized(b) and all(s.args[0].args == (b, tm.const(i)) for i, s in enumerate(r.args[0])):
        r = b
    elif cd.SIZE[0] == 0 and r.op in ('sym', 'attr', 'item') and cd.sized(r):
      r = tm.lst(())
    memo[t] = r
  return r


def lookups(t):
  """Looks up a computed key in a table: what is found depends on which keys coincide."""
  seen, todo = set(), [t]
  while todo:
    x = todo.pop()
    if isinstance(x, tuple):
      todo.extend(x)
    elif isinstance(x, tm.T) and x not in seen:
      seen.add(x)
      if x.args and isinstance(x.args[0], tm.T) and x.args[0].op == 'dct' and x.op != 'e':
        return True
      if x.op == 'in' and isinstance(x.args[1], tm.T) and x.args[1].op in ('dct', 'lst', 'br', 'ite'):
        return True
      todo.extend(x.args)
  return False


UNSURE = ('text:', 'abs(', 'defaultdict(')   # facts about these are too weak for a difference to be certain


def sizes(R, ob, ks=(1, 2, 0), limit=20):
  """Both functions on lists of one fixed length: loops end after that many iterations, so nothing is lost to a loop summary."""
  fi, si = R.func(ob.code), R.func(ob.spec)
  if fi is None or si is None:
    return None

  def on_alarm(*_):
    raise Timeout()

  for k in ks:
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    cd.SIZE[0] = k
    cd.reset()
    try:
      opq = set(ob.opaque) | {ob.code}
      I1 = ip.Interp(R, opaque=opq, emitters=ob.emitters, options=dict(ob.options, side='reference'))
      syms = syms_for(R, fi, si, I1)
      a = I1.summary(si, syms)
      I2 = ip.Interp(R, opaque=opq, emitters=ob.emitters, options=ob.options)
      b = I2.summary(fi, syms)
      if ob.options.get('markup'):
        from . import seqops as so
        a, b = so.markup(a, {}), so.markup(b, {})
      if getattr(I1, 'summarised', 0) or getattr(I2, 'summarised', 0):
        if os.environ.get('SIZES'):
          print('   size', k, ob.code.split(':')[1], 'summarised', getattr(I1, 'which', None), getattr(I2, 'which', None))
        continue
      if lookups(a) or lookups(b):
        continue
      r = cm.Comparer(whole(a, {}), whole(b, {}), unordered=ob.unordered).run()
      if os.environ.get('SIZES'):
        print('   size', k, ob.code.split(':')[1], ['eq', 'unk', 'diff'][r.v], str(r.msg)[:int(os.environ['SIZES'])])
      if r.v == cm.DIFF and not any(w in str(r.msg) for w in UNSURE):
        return 'for lists of length %d: %s' % (k, r.msg)
    except (Timeout, Abort, RecursionError) as e:
      if os.environ.get('SIZES'):
        print('   size', k, ob.code.split(':')[1], type(e).__name__, str(e)[:100])
    except Exception as e:  # pylint: disable=broad-except
      if os.environ.get('SIZES'):
        import traceback
        traceback.print_exc()
    finally:
      cd.SIZE[0] = None
      cd.reset()
      signal.alarm(0)
      signal.signal(signal.SIGALRM, old)
  return None


def settle(obs, res, R=None):
  settle_pieces(obs, res, R)
  if R is None:
    return res
  by = {}
  for o, r in zip(obs, res):
    if isinstance(o, Ob):
      by.setdefault((o.code, o.spec), []).append((o, r))
  for items in by.values():
    if any(r['verdict'] == 'diff' for _, r in items) or not any(r['verdict'] == 'unk' for _, r in items):
      continue
    m = sizes(R, items[0][0])
    if m:
      r = [r for _, r in items if r['verdict'] == 'unk'][0]
      r.update(verdict='diff', msg=m)
  return res


def settle_pieces(obs, res, R=None):
  """A piece of a function is comparable only if its other pieces still carry the same state."""
  first = [r['verdict'] for r in res]

  ranges = [r['verdict'] == 'diff' and str(r['msg']).startswith('the loop goes over something else') for r in res]

  def within(p):
    return [x for x in p if x[0] == 'inner']

  # one call with other arguments, in all pieces of a function that differ
  swaps = {}
  for o, r in zip(obs, res):
    if getattr(o, 'part', None) and r['verdict'] != 'eq':
      swaps.setdefault((o.code, tuple(within(o.part))), set()).add(r.get('swap'))
  swaps = {k: next(iter(v)) for k, v in swaps.items() if len(v) == 1}

  for o, r in zip(obs, res):
    part = getattr(o, 'part', None)
    if part and r['verdict'] in ('diff', 'unk') and swaps.get((o.code, tuple(within(part)))):
      r.update(verdict='diff', msg='call: expected %s, found %s' % swaps[(o.code, tuple(within(part)))])
      continue
    if r['verdict'] != 'diff' or not part or part[-1][0] not in ('flow', 'step'):
      continue
    lost = set()
    for o2, v2, only in zip(obs, first, ranges):
      p2 = getattr(o2, 'part', None)
      if only and str(r['msg']).startswith('the loop goes over something else'):
        continue   # no loop can make up for what another one leaves out
      if not p2 or o2 is o or o2.code != o.code or within(p2) != within(part) or v2 == 'eq':
        continue
      if p2[-1][0] in ('loop', 'step') or p2[-1][0] == 'flow' and part[-1][0] == 'step':
        lost.add(p2[len(part) - 1][1] if p2[:len(part) - 1] == part[:-1] and len(p2[len(part) - 1]) == 2 else None)
    if not lost:
      continue
    if part[-1][0] == 'flow' and None not in lost and R is not None:
      # what the code around the loops does whatever those loops leave behind
      o3 = copy.copy(o)
      o3.options = dict(o.options, lost=lost, depth=len([p for p in part if p[0] != 'inner']) - 1)
      r3 = run(R, o3)
      if r3['verdict'] == 'diff':
        r.update(msg=r3['msg'])
        continue
    r.update(verdict='unk', msg='loop state differs; ' + str(r['msg']))

  # nested functions of one name, written in another order
  alike = {}
  for o, r in zip(obs, res):
    part = getattr(o, 'part', None)
    if part and r['verdict'] == 'diff' and part[-1][0] == 'inner' and '#' in str(part[-1][1]):
      alike.setdefault((o.code, tuple(part[:-1]), part[-1][1].split('#')[0]), []).append((o, r))
  for items in alike.values():
    if len(items) == 2 and R is not None:
      again = []
      for (o, _), (p, _) in zip(items, reversed(items)):
        o2 = copy.copy(o)
        o2.cpart = p.cpart
        again.append(run(R, o2))
      if all(r['verdict'] != 'diff' for r in again):
        for (_, r), r2 in zip(items, again):
          r.update(r2)
  return res

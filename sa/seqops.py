"""Normalising constructors for sequence / mapping operations on terms."""
import re
from . import terms as tm
from . import conds as cd
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const, ite


def mk_attr(b, name):
  if b.op == 'ite':
    return ite(b.args[0], mk_attr(b.args[1], name), mk_attr(b.args[2], name))
  if b.op == 'rec':
    for f, v in b.args[1]:
      if f == name:
        return v
  if b.op == 'enum':
    if name == 'value':
      v = cd.enum_value(b)
      if v is not None:
        return v
    if name == 'name':
      return const(b.args[1])
  if b.op == 'repl':
    for f, v in b.args[1]:
      if f == name:
        return v
    return mk_attr(b.args[0], name)
  return T('attr', b, name)


tm.REBUILD['attr'] = mk_attr


def mk_repl(b, fields):
  """dataclasses.replace(b, **fields)."""
  if b.op == 'ite':
    return ite(b.args[0], mk_repl(b.args[1], fields), mk_repl(b.args[2], fields))
  if not fields:
    return b
  new = dict(fields)
  if b.op == 'rec':
    return T('rec', b.args[0], tuple((f, new.get(f, v)) for f, v in b.args[1]))
  if b.op == 'repl':
    d = dict(b.args[1])
    d.update(new)
    return mk_repl(b.args[0], tuple(sorted(d.items())))
  ty = cd.type_of(b)
  if ty and ty[0] == 'cls':
    ci = cd.cls_of(ty[1])
    if ci is not None and cd.REPO[0].kind(ci) in ('dataclass', 'namedtuple'):
      fs = [f[0] for f in cd.REPO[0].all_fields(ci)]
      if fs and set(new) <= set(fs) and not _has_subclass(ci):
        return T('rec', ty[1], tuple((f, new.get(f, mk_attr(b, f))) for f in fs))
  return T('repl', b, tuple(sorted(new.items())))


def _has_subclass(ci):
  repo = cd.REPO[0]
  for m in repo.modules.values():
    for k, o in m.defs.values():
      if k == 'class' and o is not ci and ci in repo.mro(o):
        return True
  return False


tm.REBUILD['repl'] = mk_repl


def _segs_get(segs, k):
  """k-th element (k>=0) if determined by the leading segments, else None."""
  for s in segs:
    if s.op == 'e':
      if k == 0:
        return s.args[0]
      k -= 1
    elif s.op == 'x':
      n = cd.length(s.args[0])
      if tm.is_num(n):
        if k < tm.num(n):
          return mk_item(s.args[0], const(k))
        k -= int(tm.num(n))
      else:
        return None
    elif s.op == 'br':
      rest = None
      i = segs.index(s)
      a = _segs_get(tuple(s.args[1]) + tuple(segs[i + 1:]), k)
      b = _segs_get(tuple(s.args[2]) + tuple(segs[i + 1:]), k)
      if a is not None and b is not None:
        return ite(s.args[0], a, b)
      return None
    else:
      return None
  return None


def _segs_get_end(segs, k):
  """k-th element from the end (k>=1)."""
  segs = list(segs)
  while segs:
    s = segs[-1]
    if s.op == 'e':
      if k == 1:
        return s.args[0]
      k -= 1
      segs.pop()
    elif s.op == 'x' and len(segs) == 1:
      return mk_item(s.args[0], const(-k))
    elif s.op == 'br':
      a = _segs_get_end(tuple(segs[:-1]) + tuple(s.args[1]), k)
      b = _segs_get_end(tuple(segs[:-1]) + tuple(s.args[2]), k)
      if a is not None and b is not None:
        return ite(s.args[0], a, b)
      return None
    else:
      return None
  return None


def mk_item(b, i):
  if b.op == 'ite':
    return ite(b.args[0], mk_item(b.args[1], i), mk_item(b.args[2], i))
  if i.op == 'ite':
    return ite(i.args[0], mk_item(b, i.args[1]), mk_item(b, i.args[2]))
  if b.op == 'dct':
    return dct_get(b, i, None)
  if i.op == 'enum' and cd.is_intenum(('cls', i.args[0])) and b.op == 'lst':
    v = cd.enum_value(i)
    if v is not None:
      i = v
  if cd.SIZE[0] is not None and tm.is_num(i) and tm.num(i) < 0 and cd.sized(b):
    i = tm.add(i, const(cd.SIZE[0]))
  if b.op == 'lst':
    if tm.is_num(i) and tm.num(i).denominator == 1:
      k = int(tm.num(i))
      r = _segs_get(b.args[0], k) if k >= 0 else _segs_get_end(b.args[0], -k)
      if r is not None:
        return r
    if len(b.args[0]) == 1:
      s = b.args[0][0]
      if s.op == 'L' and s.args[1] is FALSE and len(s.args[2]) == 1 and s.args[2][0].op == 'e':
        if tm.is_num(i) and tm.num(i) < 0:
          i = tm.add(s.args[0], i)
        return tm.open_(s.args[2][0].args[0], [i])
      if s.op == 'x':
        return mk_item(s.args[0], i)
    if len(b.args[0]) >= 1 and b.args[0][0].op == 'e' and not tm.is_num(i):
      pass
  if b.op == 'slice' and b.args[3] is NONE:
    x, lo, hi, _ = b.args
    if tm.is_num(i) and tm.num(i) < 0:
      if hi is NONE:
        return mk_item(x, i)
      return mk_item(x, tm.add(hi, i))
    lo_ = ZERO if lo is NONE else lo
    if not (tm.is_num(lo_) and tm.num(lo_) < 0):
      return mk_item(x, tm.add(lo_, i))
  if b.op == 'rev':
    x = b.args[0]
    if tm.is_num(i) and tm.num(i) < 0:
      return mk_item(x, const(-tm.num(i) - 1))
    return mk_item(x, tm.sub(tm.sub(cd.length(x), ONE), i))
  if b.op == 'range':
    lo, hi, st = b.args
    return tm.add(lo, tm.mul(i, st))
  if tm.is_str(b) and tm.is_num(i):
    k = int(tm.num(i))
    if -len(b.args[1]) <= k < len(b.args[1]):
      return const(b.args[1][k])
  if b.op == 'rec' and tm.is_num(i):
    k = int(tm.num(i))
    if -len(b.args[1]) <= k < len(b.args[1]):
      return b.args[1][k][1]
  if b.op == 'store':
    base, j, v = b.args
    c = cd.eq(i, j)
    if c is TRUE:
      return v
    if c is FALSE:
      return mk_item(base, i)
    return ite(c, v, mk_item(base, i))
  if tm.is_num(i) and tm.num(i) < 0:
    ty = cd.type_of(b)
    if not (ty and ty[0] == 'dict'):
      i = tm.add(cd.length(b), i)
  ty = cd.type_of(b)
  if ty and ty[0] == 'cls' and tm.is_num(i):
    ci = cd.cls_of(ty[1])
    if ci is not None and cd.REPO[0].kind(ci) == 'namedtuple':
      fs = cd.REPO[0].all_fields(ci)
      k = int(tm.num(i))
      if 0 <= k < len(fs):
        return mk_attr(b, fs[k][0])
  return T('item', b, i)


tm.REBUILD['item'] = mk_item


def dct_get(d, k, default):
  """Lookup in a dct term; default None means indexing (KeyError)."""
  segs = d.args[0]

  def go(n):
    if n == 0:
      return default if default is not None else T('nokey', k)
    s = segs[n - 1]
    if s.op == 'e':
      kk, v = s.args[0].args
      c = cd.eq(k, kk)
      if c is TRUE:
        return v
      r = go(n - 1)
      if r is None:
        return None
      return ite(c, v, r)
    if s.op == 'x' and n == 1:
      if default is not None:
        return T('meth', 'get', s.args[0], (k, default), ())
      return mk_item(s.args[0], k)
    if s.op == 'br':
      a = dct_get(T('dct', tuple(segs[:n - 1]) + tuple(s.args[1])), k, default)
      b = dct_get(T('dct', tuple(segs[:n - 1]) + tuple(s.args[2])), k, default)
      return ite(s.args[0], a, b)
    return None

  r = go(len(segs))
  if r is not None:
    # indexing a literal dict with a key known to be one of its keys
    if default is None and r.op == 'ite':
      r = _drop_nokey(r, k)
    return r
  if default is not None:
    return T('meth', 'get', d, (k, default), ())
  return T('item', d, k)


def _drop_nokey(r, k):
  # enum domain fully covered: the last alternative is implied
  dom = cd.enum_domain(cd.type_of(k))
  if dom is None:
    return r
  keys = []
  x = r
  while x.op == 'ite':
    keys.append(x.args[0])
    x = x.args[2]
  if x.op == 'nokey' and len(keys) == len(dom):
    def strip(y):
      if y.op == 'ite':
        if y.args[2] is x:
          return y.args[1]
        return ite(y.args[0], y.args[1], strip(y.args[2]))
      return y
    return strip(r)
  return r


def mk_slice(b, lo, hi, st=NONE):
  for k, a in enumerate((b, lo, hi)):
    if a.op == 'ite':
      x = [b, lo, hi]
      y = [b, lo, hi]
      x[k], y[k] = a.args[1], a.args[2]
      return ite(a.args[0], mk_slice(*x, st), mk_slice(*y, st))
  if st is not NONE and not (tm.is_num(st) and tm.num(st) == 1):
    if tm.is_num(st) and tm.num(st) == -1 and lo is NONE and hi is NONE:
      return mk_rev(b)
    return T('slice', b, lo, hi, st)
  st = NONE
  n = None
  if cd.SIZE[0] is not None and cd.sized(b):
    if all(x is NONE or tm.is_num(x) for x in (lo, hi)):
      b = T('lst', tuple(T('e', mk_item(b, const(j))) for j in range(cd.SIZE[0])))
  if lo is ZERO:
    lo = NONE
  if hi is not NONE and hi is cd.length(b):
    hi = NONE
  if tm.is_num(hi) and tm.num(hi) < 0 and b.op not in ('lst',) and not tm.is_str(b):
    hi = tm.add(cd.length(b), hi)
  if tm.is_num(lo) and tm.num(lo) < 0 and b.op not in ('lst',) and not tm.is_str(b):
    lo = tm.add(cd.length(b), lo)
  if lo is NONE and hi is NONE:
    return b
  if tm.is_str(b) and all(x is NONE or tm.is_num(x) for x in (lo, hi)):
    f = lambda x: None if x is NONE else int(tm.num(x))
    return const(b.args[1][f(lo):f(hi)])
  if b.op == 'lst':
    segs = b.args[0]
    if all(s.op == 'e' for s in segs) and all(x is NONE or tm.is_num(x) for x in (lo, hi)):
      f = lambda x: None if x is NONE else int(tm.num(x))
      return tm.lst(segs[f(lo):f(hi)])
    # drop a known number of trailing / leading single elements
    if hi is not NONE and tm.is_num(hi) and tm.num(hi) < 0:
      k = -int(tm.num(hi))
      if len(segs) >= k and all(s.op == 'e' for s in segs[len(segs) - k:]):
        return mk_slice(tm.lst(segs[:len(segs) - k]), lo, NONE)
    if tm.is_num(lo) and tm.num(lo) >= 0:
      k = int(tm.num(lo))
      if len(segs) >= k and all(s.op == 'e' for s in segs[:k]):
        h2 = hi
        if hi is not NONE:
          h2 = tm.sub(hi, const(k)) if not (tm.is_num(hi) and tm.num(hi) < 0) else hi
        return mk_slice(tm.lst(segs[k:]), NONE, h2)
    if lo is NONE and tm.is_num(hi) and tm.num(hi) >= 0:
      k = int(tm.num(hi))
      if len(segs) >= k and all(s.op == 'e' for s in segs[:k]):
        return tm.lst(segs[:k])
    if len(segs) == 1 and segs[0].op == 'x':
      return mk_slice(segs[0].args[0], lo, hi)
    # split at a segment boundary
    acc = ZERO
    for j, s in enumerate(segs):
      if lo is not NONE and acc is lo and hi is NONE:
        return tm.lst(segs[j:])
      if hi is not NONE and acc is hi and lo is NONE:
        return tm.lst(segs[:j])
      acc = tm.add(acc, cd.seg_len(s))
  if b.op == 'slice' and b.args[3] is NONE:
    x, l2, h2, _ = b.args
    if hi is NONE and lo is not NONE and not (tm.is_num(lo) and tm.num(lo) < 0):
      base = ZERO if l2 is NONE else l2
      if not (tm.is_num(base) and tm.num(base) < 0):
        return mk_slice(x, tm.add(base, lo), h2)
  return T('slice', b, lo, hi, st)


tm.REBUILD['slice'] = mk_slice


def mk_rev(b):
  if b.op == 'ite':
    return ite(b.args[0], mk_rev(b.args[1]), mk_rev(b.args[2]))
  if b.op == 'rev':
    return b.args[0]
  if b.op == 'lst':
    return tm.lst(_rev_segs(b.args[0]))
  if b.op == 'range' and tm.is_num(b.args[2]) and tm.num(b.args[2]) == 1:
    lo, hi, _ = b.args
    return T('range', tm.sub(hi, ONE), tm.sub(lo, ONE), const(-1))
  return T('rev', b)


def _rev_segs(segs):
  out = []
  for s in reversed(segs):
    if s.op == 'e':
      out.append(s)
    elif s.op == 'x':
      out.append(T('x', mk_rev(s.args[0])))
    elif s.op == 'br':
      out.extend(tm.br(s.args[0], _rev_segs(s.args[1]), _rev_segs(s.args[2])))
    elif s.op == 'L' and s.args[1] is FALSE:
      n = s.args[0]
      i = tm.fresh('i', cd.INT)
      body = tm.open_(s.args[2], [tm.sub(tm.sub(n, ONE), i)])
      out.append(T('L', n, FALSE, tm.close(_rev_segs(body), [i])))
    else:
      out.append(T('x', T('rev', T('lst', (s,)))))
  return tuple(out)


tm.REBUILD['rev'] = mk_rev


def simplify_count(lo, hi, st):
  if tm.is_num(st):
    if tm.num(st) == 1:
      return tm.sub(hi, lo)
    if tm.num(st) == -1:
      return tm.sub(lo, hi)
    if tm.is_num(lo) and tm.is_num(hi):
      return const(len(range(int(tm.num(lo)), int(tm.num(hi)), int(tm.num(st)))))
  return T('nat', 'rangelen', lo, hi, st)


def mk_minmax(op, vals):
  """n-ary min / max over scalar terms."""
  flat = []
  for v in vals:
    if v.op == op:
      flat.extend(v.args[0])
    else:
      flat.append(v)
  for k, v in enumerate(flat):
    if v.op == 'ite':
      a, b = list(flat), list(flat)
      a[k], b[k] = v.args[1], v.args[2]
      return ite(v.args[0], mk_minmax(op, a), mk_minmax(op, b))
  nums = [v for v in flat if tm.is_num(v)]
  rest = []
  for v in flat:
    if not tm.is_num(v) and v not in rest:
      rest.append(v)
  if nums:
    f = min if op == 'min' else max
    n = const(f(tm.num(v) for v in nums))
    # max(0, len(x)) = len(x)
    if op == 'max' and tm.num(n) <= 0 and any(cd.nonneg_lower(v) is not None and cd.nonneg_lower(v) >= tm.num(n) for v in rest):
      pass
    else:
      rest.append(n)
  if len(rest) == 1:
    return rest[0]
  # drop elements that differ by a constant
  out = []
  for v in rest:
    dominated = False
    for w in rest:
      if w is v:
        continue
      d = tm.sub(v, w)
      if tm.is_num(d) and ((op == 'min' and tm.num(d) > 0) or (op == 'max' and tm.num(d) < 0)):
        dominated = True
    if not dominated:
      out.append(v)
  if len(out) == 1:
    return out[0]
  return T(op, tuple(sorted(out)))


tm.REBUILD['min'] = lambda vs: mk_minmax('min', vs)
tm.REBUILD['max'] = lambda vs: mk_minmax('max', vs)


def tostr(v):
  if tm.is_str(v):
    return v
  if v.op == 'ite':
    return ite(v.args[0], tostr(v.args[1]), tostr(v.args[2]))
  if v.op in ('cat', 'strl', 'str', 'fmt'):
    return v
  if v is TRUE or v is FALSE or v is NONE:
    return const({TRUE: 'True', FALSE: 'False', NONE: 'None'}[v])
  if cd.type_of(v) == cd.STR:
    return v
  return T('str', v)


tm.REBUILD['str'] = tostr


def join(sep, seq):
  """sep.join(seq) with seq a term."""
  if seq.op == 'ite':
    return ite(seq.args[0], join(sep, seq.args[1]), join(sep, seq.args[2]))
  if seq.op == 'lst':
    segs = seq.args[0]
    if tm.is_str(sep) and sep.args[1] == '':
      return tm.cat(*[_seg_cat(s) for s in segs])
    if all(s.op == 'e' for s in segs):
      parts = []
      for k, s in enumerate(segs):
        if k:
          parts.append(sep)
        parts.append(s.args[0])
      return tm.cat(*parts)
    if len(segs) == 1 and segs[0].op == 'x':
      return T('meth', 'join', sep, (segs[0].args[0],), ())
  if tm.is_str(sep) and sep.args[1] == '':
    ty = cd.type_of(seq)
    if ty == cd.STR:
      return seq
    return T('strx', seq)
  return T('meth', 'join', sep, (seq,), ())


def _seg_cat(s):
  if s.op == 'e':
    return s.args[0]
  if s.op == 'x':
    v = s.args[0]
    if cd.type_of(v) == cd.STR:
      return v
    return T('strx', v)
  if s.op == 'br':
    return ite(s.args[0], tm.cat(*[_seg_cat(q) for q in s.args[1]]), tm.cat(*[_seg_cat(q) for q in s.args[2]]))
  if s.op == 'L':
    return mk_strl(s.args[0], s.args[1], tm.cat(*[_seg_cat(q) for q in s.args[2]]))
  return T('strx', T('lst', (s,)))


def mk_strl(count, exit_, expr):
  if expr is tm.EMPTY_STR:
    return expr
  # concatenation of xs[i] over i
  if exit_ is FALSE and expr.op == 'item' and expr.args[1].op == 'db' and expr.args[1].args == (0, 0) \
      and not tm._mentions_level(expr.args[0], 0):
    xs = tm._shift(expr.args[0], -1)
    if count is cd.length(xs):
      return xs if cd.type_of(xs) == cd.STR else T('strx', xs)
  return T('strl', count, exit_, expr)


tm.REBUILD['strl'] = mk_strl


def mk_strx(seq):
  return join(tm.EMPTY_STR, seq)


tm.REBUILD['strx'] = mk_strx


def _meth_rebuild(name, recv, args, kw):
  if name == 'join' and len(args) == 1 and not kw and args[0].op in ('lst', 'ite'):
    return join(recv, args[0])
  return T('meth', name, recv, args, kw)


tm.REBUILD['meth'] = _meth_rebuild


def markup(t, memo):
  """Literal parts of built strings with insignificant white space collapsed."""
  r = memo.get(t)
  if r is None:
    if not t.args:
      r = t
    elif tm.is_str(t):
      x = t.args[1]
      r = const(re.sub(r' ?(<[/a-z]|/?>) ?', r'\1', re.sub(r'\s+', ' ', x)).strip()) if '<' in x else t
    elif t.op == 'cat':
      ps = []
      for p in t.args[0]:
        if tm.is_str(p):
          x = re.sub(r'\s+', ' ', p.args[1])
          x = re.sub(r' ?(<[/a-z]|/?>) ?', r'\1', x)
          p = const(x)
        else:
          p = markup(p, memo)
        ps.append(p)
      while ps and tm.is_str(ps[0]) and not ps[0].args[1].strip():
        ps = ps[1:]
      while ps and tm.is_str(ps[-1]) and not ps[-1].args[1].strip():
        ps = ps[:-1]
      r = tm.cat(*ps) if ps else const('')
    else:
      r = tm.rebuild(t, [tm._map_arg(a, lambda x: markup(x, memo)) for a in t.args])
    memo[t] = r
  return r

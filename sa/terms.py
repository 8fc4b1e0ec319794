"""Interned value-number terms used by the abstract interpreter.

A term is T(op, args).  Terms are hash-consed, so `is` is equality.  Binders
(loops, lambdas) are locally nameless: bound variables are T('db', level, k)
inside a binder and fresh T('fv', n) once opened.
"""
from fractions import Fraction

_TABLE = {}


class T:
  __slots__ = ('op', 'args', '_id', '_fv', '_size', '_hasdb')

  def __new__(cls, op, *args):
    key = (op,) + tuple((a if isinstance(a, T) else (type(a), a)) for a in args)
    t = _TABLE.get(key)
    if t is None:
      t = object.__new__(cls)
      t.op = op
      t.args = args
      t._id = len(_TABLE)
      size = 1
      hasdb = op == 'db'
      for a in args:
        if isinstance(a, T):
          size += a._size
          hasdb = hasdb or a._hasdb
        elif isinstance(a, tuple):
          for b in _flat(a):
            size += b._size
            hasdb = hasdb or b._hasdb
      t._size = size
      t._hasdb = hasdb
      t._fv = None
      _TABLE[key] = t
    return t

  def __repr__(self):
    return show(self)

  def __lt__(self, other):
    return self._id < other._id


def _flat(tup):
  for x in tup:
    if isinstance(x, T):
      yield x
    elif isinstance(x, tuple):
      yield from _flat(x)


def children(t):
  for a in t.args:
    if isinstance(a, T):
      yield a
    elif isinstance(a, tuple):
      yield from _flat(a)


def frees(t):
  """Set of free leaf terms (sym/fv/ref/lv) in t."""
  if t._fv is None:
    if t.op in ('sym', 'fv', 'ref', 'clo'):
      t._fv = frozenset((t,))
    else:
      s = frozenset()
      for c in children(t):
        f = frees(c)
        if f:
          s = s | f if s else f
      t._fv = s
  return t._fv


def _map_arg(a, fn):
  if isinstance(a, T):
    return fn(a)
  if isinstance(a, tuple):
    return tuple(_map_arg(x, fn) for x in a)
  return a


# ---------------------------------------------------------------- constants
def const(v):
  if isinstance(v, bool):
    return T('const', 'bool', v)
  if isinstance(v, (int, Fraction)):
    return T('const', 'num', Fraction(v))
  if isinstance(v, float):
    if v != v or v in (float('inf'), float('-inf')):
      return T('const', 'fnum', repr(v))
    return T('const', 'num', Fraction(v))
  if v is None:
    return NONE
  if isinstance(v, str):
    return T('const', 'str', v)
  if isinstance(v, bytes):
    return T('const', 'bytes', v)
  if v is Ellipsis:
    return T('const', 'ellipsis', '...')
  return T('top', 'const ' + type(v).__name__)


NONE = T('const', 'none', 'None')
TRUE = T('const', 'bool', True)
FALSE = T('const', 'bool', False)
ZERO = T('const', 'num', Fraction(0))
ONE = T('const', 'num', Fraction(1))
EMPTY_STR = T('const', 'str', '')

_fresh = [0]


def fresh(tag='v', typ=None):
  _fresh[0] += 1
  return T('fv', _fresh[0], tag, typ)


def sym(name, typ=None):
  return T('sym', name, typ)


def top(reason):
  return T('top', reason)


def is_num(t):
  return t.op == 'const' and t.args[0] == 'num'


def is_str(t):
  return t.op == 'const' and t.args[0] == 'str'


def is_bool(t):
  return t.op == 'const' and t.args[0] == 'bool'


def num(t):
  return t.args[1]


BINDERS = {
    # op -> indexes of args inside the scope
    'L': (1, 2),        # (count, exit, segs)
    'sum': (1, 2),      # (count, exit, expr)
    'strl': (1, 2),     # (count, exit, expr)
    'loop': (2,),       # (count, inits, body)
    'lam': (1,),        # (nparams, body)
    'exists': (1, 2),   # (count, exit, cond)
    'dL': (1, 2),
}
INF = T('inf')



# ------------------------------------------------------ substitution / binders
def rebuild(t, args):
  """Rebuild a term through smart constructors after mapping children."""
  op = t.op
  f = REBUILD.get(op)
  if f is not None:
    return f(*args)
  return T(op, *args)


REBUILD = {}


def subst(t, mapping):
  """Capture-avoiding substitution of free leaf terms (mapping: T -> T)."""
  keys = frozenset(mapping)
  memo = {}

  def go(x):
    if x in mapping:
      return mapping[x]
    if not (frees(x) & keys):
      return x
    r = memo.get(x)
    if r is None:
      r = rebuild(x, [_map_arg(a, go) for a in x.args])
      memo[x] = r
    return r

  return go(t)


def replace_terms(t, mapping):
  """Replaces arbitrary (closed) subterms."""
  memo = {}

  def go(x):
    if x in mapping:
      return mapping[x]
    r = memo.get(x)
    if r is None:
      r = rebuild(x, [_map_arg(a, go) for a in x.args]) if x.args else x
      memo[x] = r
    return r

  return go(t)


def close(t, names):
  """Replace fresh variables names[k] by db(level, k) in t (a scope body)."""
  idx = {n: k for k, n in enumerate(names)}
  keys = frozenset(idx)
  memo = {}

  def go(x, lvl):
    if x in idx:
      return T('db', lvl, idx[x])
    if not (frees(x) & keys):
      return x
    r = memo.get((x, lvl))
    if r is None:
      scope = BINDERS.get(x.op)
      args = []
      for i, a in enumerate(x.args):
        l2 = lvl + 1 if (scope and i in scope) else lvl
        args.append(_map_arg(a, lambda y, l2=l2: go(y, l2)))
      r = rebuild(x, args)
      memo[(x, lvl)] = r
    return r

  return go(t, 0) if isinstance(t, T) else _map_arg(t, lambda y: go(y, 0))


def open_(t, vals):
  """Inverse of close: replace db(0, k) by vals[k]."""
  memo = {}

  def go(x, lvl):
    if not x._hasdb:
      return x
    if x.op == 'db':
      if x.args[0] == lvl:
        k = x.args[1]
        return vals[k] if k < len(vals) else x
      return x
    r = memo.get((x, lvl))
    if r is None:
      scope = BINDERS.get(x.op)
      args = []
      for i, a in enumerate(x.args):
        l2 = lvl + 1 if (scope and i in scope) else lvl
        args.append(_map_arg(a, lambda y, l2=l2: go(y, l2)))
      r = rebuild(x, args)
      memo[(x, lvl)] = r
    return r

  return go(t, 0) if isinstance(t, T) else _map_arg(t, lambda y: go(y, 0))


# ------------------------------------------------------------- boolean / ite
BOOL_OPS = {'isc', 'isinst', 'gt0', 'eq0', 'truthy', 'in'}


def boolish(c):
  while c.op == 'ite':
    if not (c.args[1] is TRUE or c.args[1] is FALSE or boolish(c.args[1])):
      return False
    c = c.args[2]
  return c is TRUE or c is FALSE or c.op in BOOL_OPS


def ite(c, a, b):
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if a is TRUE and b is FALSE and boolish(c):
    return c
  if c.op == 'ite':
    x, y, z = c.args
    # not c
    if y is FALSE and z is TRUE:
      return ite(x, b, a)
    return T('ite', c, a, b)
  if c.op == 'const':
    return a if truth_const(c) else b
  # within a, c is known true (cheap one-level pruning)
  if a.op == 'ite' and a.args[0] is c:
    a = a.args[1]
  if b.op == 'ite' and b.args[0] is c:
    b = b.args[2]
  if a is b:
    return a
  return T('ite', c, a, b)


def truth_const(c):
  kind, v = c.args
  if kind == 'none':
    return False
  if kind == 'ellipsis':
    return True
  if kind == 'fnum':
    return True
  return bool(v)


def and_(a, b):
  return ite(a, b, FALSE)


def or_(a, b):
  return ite(a, TRUE, b)


def not_(a):
  return ite(a, FALSE, TRUE)


# -------------------------------------------------------------- polynomials
# poly: T('poly', ((monomial, coeff), ...)) with monomial a sorted tuple of
# (atom, power); the constant monomial is ().
def poly_dict(t):
  if t.op == 'const':
    if t.args[0] == 'num':
      return {(): t.args[1]} if t.args[1] else {}
    if t.args[0] == 'bool':
      return {(): Fraction(1)} if t.args[1] else {}
    return {((t, 1),): Fraction(1)}
  if t.op == 'poly':
    return dict((m, c) for m, c in t.args[0])
  return {((t, 1),): Fraction(1)}


def _mkey(m):
  return tuple((a._id, p) for a, p in m)


def poly_make(d):
  items = sorted(((m, c) for m, c in d.items() if c), key=lambda mc: _mkey(mc[0]))
  if not items:
    return ZERO
  if len(items) == 1:
    m, c = items[0]
    if m == ():
      return T('const', 'num', c)
    if c == 1 and len(m) == 1 and m[0][1] == 1:
      return m[0][0]
  return T('poly', tuple(items))


def add(a, b, sb=1):
  d = poly_dict(a)
  for m, c in poly_dict(b).items():
    d[m] = d.get(m, 0) + sb * c
  return poly_make(d)


def sub(a, b):
  return add(a, b, -1)


def neg(a):
  return sub(ZERO, a)


def mul(a, b):
  d = {}
  for m1, c1 in poly_dict(a).items():
    for m2, c2 in poly_dict(b).items():
      mm = dict(m1)
      for at, p in m2:
        mm[at] = mm.get(at, 0) + p
      m = tuple(sorted(((k, p) for k, p in mm.items() if p), key=lambda kp: kp[0]._id))
      d[m] = d.get(m, 0) + c1 * c2
  return poly_make(d)


def div(a, b):
  if is_num(b) and num(b) != 0:
    return mul(a, const(Fraction(1) / num(b)))
  db = poly_dict(b)
  if len(db) == 1:
    (m, c), = db.items()
    inv = tuple((k, -p) for k, p in m)
    return mul(a, poly_make({inv: Fraction(1) / c}))
  return mul(a, T('poly', (((((T('grp', b), -1),)), Fraction(1)),)))


def _poly_rebuild(items):
  r = ZERO
  for m, c in items:
    term = const(c)
    for at, p in m:
      if at.op == 'grp' and p == -1:
        term = div(term, at.args[0])
        continue
      for _ in range(abs(p)):
        term = mul(term, at) if p > 0 else div(term, at)
    r = add(r, term)
  return r


REBUILD['poly'] = _poly_rebuild
REBUILD['ite'] = ite


# ------------------------------------------------------------------ strings
def cat(*parts):
  """String concatenation normal form."""
  out = []
  for p in parts:
    if p.op == 'cat':
      items = p.args[0]
    else:
      items = (p,)
    for q in items:
      if is_str(q):
        if q.args[1] == '':
          continue
        if out and is_str(out[-1]):
          out[-1] = const(out[-1].args[1] + q.args[1])
          continue
      # x[a:b] + x[b:c] -> x[a:c]
      if out and q.op == 'slice' and out[-1].op == 'slice':
        r = _join_slices(out[-1], q)
        if r is not None:
          out[-1] = r
          continue
      out.append(q)
  if not out:
    return EMPTY_STR
  if len(out) == 1:
    return out[0]
  return T('cat', tuple(out))


def _join_slices(a, b):
  xa, la, ha, sa = a.args
  xb, lb, hb, sb = b.args
  if xa is xb and sa is NONE and sb is NONE and ha is lb and ha is not NONE:
    if la is NONE and hb is NONE:
      return xa
    return T('slice', xa, la, hb, NONE)
  return None


REBUILD['cat'] = lambda parts: cat(*parts)


# ------------------------------------------------------------------- lists
# T('lst', segs): segs is a tuple of
#   T('e', value)              a single element
#   T('x', seq)                splice of an opaque sequence
#   T('L', count, exit, segs)  loop: concatenation over i of segs(i)
#   T('br', cond, segsA, segsB) gated
def lst(segs):
  out = []
  for s in segs:
    if s.op == 'x':
      v = s.args[0]
      if v.op == 'lst':
        for q in v.args[0]:
          out.append(q)
        continue
      if v.op == 'ite':
        out.extend(br(v.args[0], lst_segs(v.args[1]), lst_segs(v.args[2])))
        continue
      if v.op == 'slice' and out and out[-1].op == 'x' and out[-1].args[0].op == 'slice':
        r = _join_slices(out[-1].args[0], v)
        if r is not None:
          out[-1] = T('x', r)
          continue
      if is_str(v) and v.args[1] == '':
        continue
      out.append(s)
    elif s.op == 'L':
      out.extend(mk_L(*s.args))
    elif s.op == 'br':
      out.extend(br(*s.args))
    else:
      out.append(s)
  return T('lst', tuple(out))


def lst_segs(v):
  if v.op == 'lst':
    return v.args[0]
  if v.op == 'ite':
    return br(v.args[0], lst_segs(v.args[1]), lst_segs(v.args[2]))
  return (T('x', v),)


def br(c, a, b):
  a = tuple(a)
  b = tuple(b)
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a == b:
    return a
  if c.op == 'ite' and c.args[1] is FALSE and c.args[2] is TRUE:
    return br(c.args[0], b, a)
  # factor common prefix / suffix
  pre = []
  while a and b and a[0] is b[0]:
    pre.append(a[0])
    a, b = a[1:], b[1:]
  suf = []
  while a and b and a[-1] is b[-1]:
    suf.insert(0, a[-1])
    a, b = a[:-1], b[:-1]
  mid = (T('br', c, a, b),) if (a or b) else ()
  return tuple(pre) + mid + tuple(suf)


def mk_L(count, exit_, segs):
  if count is ZERO or not segs:
    return ()
  # for i: emit xs[a + i]  ==> splice xs[a : a+count]
  if exit_ is FALSE and len(segs) == 1 and count is not INF:
    s = segs[0]
    if s.op == 'e' and s.args[0].op == 'item' and not _mentions_level(s.args[0].args[0], 0):
      ys = _shift(s.args[0].args[0], -1)
      d = poly_dict(s.args[0].args[1])
      m = ((T('db', 0, 0), 1),)
      k = d.pop(m, None)
      a = poly_make(d)
      if k in (1, -1) and not _mentions_level(a, 0):
        a = _shift(a, -1)
        n = REBUILD['len'](ys)
        if k == 1:
          if a is ZERO and count is n:
            return lst((T('x', ys),)).args[0]
          if count.op == 'len' and count.args[0].op == 'slice' and count.args[0].args[0] is ys \
              and (count.args[0].args[1] is a or (a is ZERO and count.args[0].args[1] is NONE)):
            return (T('x', count.args[0]),)
          if a._hasdb is False and count._hasdb is False and count.op != 'nat':
            return lst((T('x', REBUILD['slice'](ys, a, add(a, count), NONE)),)).args[0]
        elif count is n and a is sub(n, ONE):
          return lst((T('x', REBUILD['rev'](ys)),)).args[0]
  if is_num(count) and num(count).denominator == 1 and (num(count) == 1 or (exit_ is FALSE and num(count) <= 4)):
    out = []
    for i in range(int(num(count))):
      out.extend(_map_arg(open_(tuple(segs), [const(i)]), lambda y: _shift(y, -1)))
    return lst(tuple(out)).args[0]
  return (T('L', count, exit_, tuple(segs)),)


def _mentions_level(t, lvl):
  if not t._hasdb:
    return False
  if t.op == 'db':
    return t.args[0] == lvl
  scope = BINDERS.get(t.op)
  for i, a in enumerate(t.args):
    l2 = lvl + 1 if scope and i in scope else lvl
    if isinstance(a, T):
      if _mentions_level(a, l2):
        return True
    elif isinstance(a, tuple):
      for b in _flat(a):
        if _mentions_level(b, l2):
          return True
  return False


def _shift(t, by, lvl=0):
  if not t._hasdb:
    return t
  if t.op == 'db':
    if t.args[0] >= lvl:
      return T('db', t.args[0] + by, t.args[1])
    return t
  scope = BINDERS.get(t.op)
  args = []
  for i, a in enumerate(t.args):
    l2 = lvl + 1 if scope and i in scope else lvl
    args.append(_map_arg(a, lambda y, l2=l2: _shift(y, by, l2)))
  return T(t.op, *args)


REBUILD['lst'] = lst


def dct(segs):
  return T('dct', lst(segs).args[0])


def mkset(segs):
  return T('set', lst(segs).args[0])


REBUILD['dct'] = dct
REBUILD['set'] = mkset


def singleton(v):
  return T('lst', (T('e', v),))


# ------------------------------------------------------------------- output
def show(t, d=0):
  if not isinstance(t, T):
    if isinstance(t, tuple):
      return '(' + ', '.join(show(x, d) for x in t) + ')'
    return str(t)
  op, a = t.op, t.args
  if d > 40:
    return '...'
  s = lambda x: show(x, d + 1)
  if op == 'const':
    if a[0] == 'num':
      return str(a[1])
    return repr(a[1]) if a[0] != 'none' else 'None'
  if op == 'enum':
    return a[0].split('.')[-1].split(':')[-1] + '.' + a[1]
  if op == 'sym':
    return a[0]
  if op == 'fv':
    return '%s%d' % (a[1], a[0])
  if op == 'db':
    return '#%d.%d' % a
  if op == 'attr':
    return s(a[0]) + '.' + a[1]
  if op == 'item':
    return s(a[0]) + '[' + s(a[1]) + ']'
  if op == 'slice':
    f = lambda x: '' if x is NONE else s(x)
    return s(a[0]) + '[' + f(a[1]) + ':' + f(a[2]) + ('' if a[3] is NONE else ':' + s(a[3])) + ']'
  if op == 'len':
    return 'len(' + s(a[0]) + ')'
  if op == 'poly':
    out = []
    for m, c in a[0]:
      fs = [s(at) + ('' if p == 1 else '^%d' % p) for at, p in m]
      if c != 1 or not fs:
        fs.insert(0, str(c))
      out.append('*'.join(fs))
    return '(' + ' + '.join(out) + ')'
  if op == 'cat':
    return ' ++ '.join(s(x) for x in a[0])
  if op == 'ite':
    if a[1] is FALSE and a[2] is TRUE:
      return 'not(' + s(a[0]) + ')'
    return 'if(' + ', '.join(s(x) for x in a) + ')'
  if op == 'lst':
    return '[' + ', '.join(s(x) for x in a[0]) + ']'
  if op == 'dct':
    return '{' + ', '.join(s(x) for x in a[0]) + '}'
  if op == 'kv':
    return s(a[0]) + ': ' + s(a[1])
  if op == 'e':
    return s(a[0])
  if op == 'x':
    return '*' + s(a[0])
  if op == 'L':
    ex = '' if a[1] is FALSE else ' exit ' + s(a[1])
    return 'for<%s%s>{%s}' % (s(a[0]), ex, ', '.join(s(x) for x in a[2]))
  if op == 'br':
    return 'if<%s>{%s}else{%s}' % (s(a[0]), ', '.join(s(x) for x in a[1]), ', '.join(s(x) for x in a[2]))
  if op == 'rec':
    return a[0].split(':')[-1] + '(' + ', '.join(f + '=' + s(v) for f, v in a[1]) + ')'
  if op == 'isc':
    return '(' + s(a[0]) + ' is ' + s(a[1]) + ')'
  if op == 'isinst':
    return 'isinstance(%s, %s)' % (s(a[0]), a[1].split(':')[-1])
  if op == 'gt0':
    return '(' + s(a[0]) + ' > 0)'
  if op == 'eq0':
    return '(' + s(a[0]) + ' == 0)'
  if op == 'call':
    return s(a[0]) + '(' + ', '.join(s(x) for x in a[1]) + (''.join(', %s=%s' % (k, s(v)) for k, v in a[2])) + ')'
  if op == 'meth':
    return s(a[1]) + '.' + a[0] + '(' + ', '.join(s(x) for x in a[2]) + (''.join(', %s=%s' % (k, s(v)) for k, v in a[3])) + ')'
  if op in ('func', 'cls', 'ext', 'mod', 'bi'):
    return str(a[0]).split(':')[-1]
  if op == 'out':
    return s(a[0]) + '!' + str(a[1])
  return op + '(' + ', '.join(s(x) for x in a) + ')'


def children_of_poly(p):
  """Atoms of a polynomial."""
  return {a for m in poly_dict(p) for a, _ in m}

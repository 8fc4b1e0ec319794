"""Types of terms, normalised conditions, and the fact (assumption) domain."""
import ast
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const, ite, and_, or_, not_
from .repo import dotted

REPO = [None]     # the Repo in use

INT = ('int',)
FLOAT = ('float',)
STR = ('str',)
BOOL = ('bool',)
NONET = ('none',)

_SEQ = {'Sequence', 'List', 'list', 'Iterable', 'Iterator', 'Generator', 'Collection',
        'FrozenSet', 'Set', 'set', 'frozenset', 'deque', 'MutableSequence'}
_DICT = {'Dict', 'dict', 'Mapping', 'MutableMapping', 'defaultdict', 'OrderedDict'}


def resolve_ann(node, mod, depth=0):
  if node is None or depth > 12:
    return None
  repo = REPO[0]
  if isinstance(node, ast.Constant):
    if node.value is None:
      return NONET
    if isinstance(node.value, str):
      try:
        return resolve_ann(ast.parse(node.value, mode='eval').body, mod, depth + 1)
      except SyntaxError:
        return None
    return None
  if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
    return union([resolve_ann(node.left, mod, depth + 1), resolve_ann(node.right, mod, depth + 1)])
  if isinstance(node, ast.Subscript):
    head = (dotted(node.value) or '').split('.')[-1]
    sl = node.slice
    elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
    if head == 'Optional':
      return union([resolve_ann(sl, mod, depth + 1), NONET])
    if head == 'Union':
      return union([resolve_ann(e, mod, depth + 1) for e in elts])
    if head in ('Tuple', 'tuple'):
      if len(elts) == 2 and isinstance(elts[1], ast.Constant) and elts[1].value is Ellipsis:
        return ('seq', resolve_ann(elts[0], mod, depth + 1))
      return ('tuple', tuple(resolve_ann(e, mod, depth + 1) for e in elts))
    if head in _SEQ:
      return ('seq', resolve_ann(elts[0], mod, depth + 1))
    if head in _DICT:
      return ('dict', resolve_ann(elts[0], mod, depth + 1),
              resolve_ann(elts[1], mod, depth + 1) if len(elts) > 1 else None)
    if head == 'Callable':
      return ('callable', resolve_ann(elts[1], mod, depth + 1) if len(elts) > 1 else None)
    if head in ('Literal',):
      return None
    return resolve_ann(node.value, mod, depth + 1)
  name = dotted(node)
  if name is None:
    return None
  last = name.split('.')[-1]
  if '.' not in name:
    if name == 'int':
      return INT
    if name == 'float':
      return FLOAT
    if name == 'str':
      return STR
    if name == 'bool':
      return BOOL
    if name in ('list', 'set', 'frozenset', 'tuple'):
      if mod.defs.get(name) is None:
        return ('seq', None)
    if name == 'dict':
      return ('dict', None, None)
  r = repo.resolve_in(mod, name)
  if r is None:
    return None
  kind, obj, m = r
  if kind == 'class':
    return ('cls', obj.qual)
  if kind == 'assign':
    return resolve_ann(obj, m, depth + 1)
  if last in ('List', 'Sequence', 'Iterable', 'Tuple'):
    return ('seq', None)
  if last in ('Dict', 'Mapping'):
    return ('dict', None, None)
  if last in ('int64', 'int32', 'intp', 'int16', 'uint64'):
    return INT
  if last in ('float64', 'float32'):
    return FLOAT
  return None


def union(ts):
  flat = []
  for t in ts:
    if t is None:
      return None
    for u in (t[1] if t[0] == 'union' else (t,)):
      if u not in flat:
        flat.append(u)
  if len(flat) == 1:
    return flat[0]
  return ('union', tuple(flat))


def cls_of(qual):
  m, q = qual.split(':')
  repo = REPO[0]
  mod = repo.modules.get(m)
  d = mod.defs.get(q) if mod else None
  return d[1] if d and d[0] == 'class' else None


_tcache = {}
_STR_METH_STR = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'join', 'format',
                 'title', 'removeprefix', 'removesuffix', 'expandtabs', 'zfill', 'ljust', 'rjust'}
_STR_METH_BOOL = {'startswith', 'endswith', 'isspace', 'isalnum', 'isalpha', 'isdigit', 'islower',
                  'isupper', 'isidentifier'}


def type_of(t):
  r = _tcache.get(t, 0)
  if r == 0:
    r = _type_of(t)
    _tcache[t] = r
  return r


ARRAY_MAKERS = {'numpy.' + n for n in ('full', 'zeros', 'ones', 'empty', 'where', 'copy', 'array', 'asarray', 'isinf', 'isfinite', 'isnan',
                                       'arange', 'cumsum', 'zeros_like', 'ones_like', 'empty_like', 'full_like')}


def is_array(t):
  """Certainly a numpy array, so that operations on it work element by element."""
  if t.op == 'call':
    f = t.args[0]
    if f.op == 'ext':
      return f.args[0] in ARRAY_MAKERS
    if f.op == 'func' and REPO[0] is not None:
      fi = REPO[0].func(f.args[0])
      r = fi.node.returns if fi is not None else None
      return r is not None and 'NDArray' in ast.dump(r) and not (
          isinstance(r, ast.Subscript) and isinstance(r.value, ast.Name) and r.value.id in ('tuple', 'list', 'Optional', 'dict', 'Union'))
    return False
  if t.op == 'poly':
    return any(is_array(x) for m in tm.poly_dict(t) for x, _ in m)
  if t.op == 'store':
    return is_array(t.args[0])
  return False


def _type_of(t):
  op, a = t.op, t.args
  if op == 'const':
    k = a[0]
    if k == 'num':
      return INT if a[1].denominator == 1 else FLOAT
    return {'bool': BOOL, 'str': STR, 'none': NONET, 'fnum': FLOAT}.get(k)
  if op == 'enum':
    return ('cls', a[0])
  if op == 'sym':
    return a[1]
  if op == 'fv':
    return a[2]
  if op in ('len', 'bv'):
    return INT
  if op in ('isc', 'isinst', 'gt0', 'eq0', 'truthy', 'in'):
    return BOOL
  if op in ('cat', 'strl', 'str'):
    return STR
  if op == 'poly':
    r = INT
    for m, c in a[0]:
      if c.denominator != 1:
        return FLOAT
      for at, p in m:
        if p < 0:
          return FLOAT
        ty = type_of(at)
        if ty in (INT, BOOL):
          continue
        if is_intenum(ty):
          continue
        r = ty if ty == FLOAT else (r if r == FLOAT else None)
        if r is None:
          return None
    return r
  if op == 'rec':
    return ('cls', a[0])
  if op == 'lst':
    for s in a[0]:
      if s.op == 'e':
        return ('seq', type_of(s.args[0]))
      if s.op == 'x':
        e = elem_type(type_of(s.args[0]))
        return ('seq', e)
    return ('seq', None)
  if op == 'dct':
    return ('dict', None, None)
  if op == 'attr':
    bt = strip_none(type_of(a[0]))
    return attr_type(bt, a[1])
  if op == 'item':
    if natural(t):
      return INT
    bt = strip_none(type_of(a[0]))
    if bt is None:
      return None
    if bt[0] == 'tuple' and tm.is_num(a[1]):
      k = int(tm.num(a[1]))
      return bt[1][k] if -len(bt[1]) <= k < len(bt[1]) else None
    if bt[0] == 'cls':
      ci = cls_of(bt[1])
      if ci is not None and REPO[0].kind(ci) == 'namedtuple' and tm.is_num(a[1]):
        fs = REPO[0].all_fields(ci)
        k = int(tm.num(a[1]))
        if k < len(fs):
          return resolve_ann(fs[k][1], fs[k][3].module)
    return elem_type(bt)
  if op == 'slice':
    return type_of(a[0])
  if op == 'ite':
    if a[1] in (TRUE, FALSE) and a[2] in (TRUE, FALSE):
      return BOOL
    x, y = type_of(a[1]), type_of(a[2])
    if x == y:
      return x
    if x is None or y is None:
      return None
    if {x, y} <= {INT, BOOL}:
      return INT
    if {x, y} <= {INT, BOOL, FLOAT}:
      return FLOAT
    return union([x, y])
  if op == 'bin':
    x, y = type_of(a[1]), type_of(a[2])
    if a[0] in ('Mod', 'FloorDiv', 'Pow') and {x, y} <= {INT, BOOL, FLOAT}:
      return FLOAT if FLOAT in (x, y) else INT if a[0] != 'Pow' else None
    if a[0] in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift') and {x, y} <= {INT}:
      return INT
    return None
  if op == 'call':
    h = a[0]
    if h.op == 'func':
      fi = REPO[0].func(h.args[0])
      if fi is not None and fi.node.returns is not None:
        return resolve_ann(fi.node.returns, fi.module)
      return None
    if h.op == 'bi':
      return {'int': INT, 'str': STR, 'bool': BOOL, 'float': FLOAT, 'repr': STR, 'sorted': ('seq', None),
              'abs': type_of(a[1][0]) if a[1] else None,
              'len': INT, 'ord': INT, 'chr': STR, 'any': BOOL, 'all': BOOL, 'hash': INT, 'id': INT,
              'round': INT}.get(h.args[0])
    if h.op == 'ext':
      return {'html.escape': STR, 'json.dumps': STR, 'textwrap.dedent': STR, 'time.time': FLOAT}.get(h.args[0])
    ct = type_of(h)
    if ct and ct[0] == 'callable':
      return ct[1]
    return None
  if op == 'meth':
    n = a[0]
    rt = strip_none(type_of(a[1]))
    if rt == STR:
      if n in _STR_METH_STR:
        return STR
      if n in _STR_METH_BOOL:
        return BOOL
      if n in ('find', 'index', 'count', 'rfind', 'rindex'):
        return INT
      if n in ('split', 'splitlines', 'rsplit'):
        return ('seq', STR)
    if rt and rt[0] == 'cls':
      ci = cls_of(rt[1])
      fi = ci and REPO[0].find_method(ci, n)
      if fi is not None and fi.node.returns is not None:
        return resolve_ann(fi.node.returns, fi.module)
    if n in ('keys',):
      return ('seq', rt[1] if rt and rt[0] == 'dict' else None)
    if n == 'values':
      return ('seq', rt[2] if rt and rt[0] == 'dict' else None)
    if n == 'get' and rt and rt[0] == 'dict' and rt[2]:
      return union([rt[2], NONET])
    if n in ('start', 'end'):
      return INT
    return None
  if op in ('max', 'min'):
    ts = [type_of(x) for x in a[0]]
    return INT if all(x == INT for x in ts) else None
  if op == 'out':
    return a[2] if len(a) > 2 else None
  if op == 'store':
    return type_of(a[0])
  if op == 'sum':
    e = type_of(tm.open_(a[2], [tm.fresh('i', INT)]))
    return e
  return None


def is_intenum(ty):
  if ty and ty[0] == 'cls':
    ci = cls_of(ty[1])
    return ci is not None and any(b.split('.')[-1] in ('IntEnum', 'IntFlag') for b in ci.bases)
  return False


def strip_none(ty):
  if ty and ty[0] == 'union':
    rest = tuple(u for u in ty[1] if u != NONET)
    if len(rest) == 1:
      return rest[0]
    return ('union', rest)
  return ty


def attr_type(bt, name):
  if bt is None:
    return None
  if bt[0] == 'union':
    ts = [attr_type(u, name) for u in bt[1]]
    ts = [x for x in ts if x is not None]
    return union(ts) if ts else None
  if bt[0] == 'cls':
    ci = cls_of(bt[1])
    if ci is None:
      return None
    repo = REPO[0]
    if repo.kind(ci) == 'enum':
      if name == 'value':
        return INT if is_intenum(bt) else None
      if name == 'name':
        return STR
    for f in repo.all_fields(ci):
      if f[0] == name:
        return resolve_ann(f[1], f[3].module)
    fi = repo.find_method(ci, name)
    if fi is not None and repo.is_prop(ci, name):
      return resolve_ann(fi.node.returns, fi.module)
    # self.x: T = ... annotations in __init__
    for c in repo.mro(ci):
      for m in c.methods.values():
        for n in ast.walk(m.node):
          if (isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute)
              and n.target.attr == name and isinstance(n.target.value, ast.Name)
              and n.target.value.id == 'self'):
            return resolve_ann(n.annotation, c.module)
    # self.x = parameter
    for c in repo.mro(ci):
      m = c.methods.get('__init__')
      if m is None:
        continue
      anns = {p.arg: p.annotation for p in m.node.args.args + m.node.args.kwonlyargs}
      for n in ast.walk(m.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
            and n.targets[0].attr == name and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == 'self' \
            and isinstance(n.value, ast.Name) and anns.get(n.value.id) is not None:
          return resolve_ann(anns[n.value.id], c.module)
      break
  return None


def elem_type(ty):
  ty = strip_none(ty)
  if ty is None:
    return None
  if ty[0] == 'seq':
    return ty[1]
  if ty == STR:
    return STR
  if ty[0] == 'dict':
    return ty[2]
  if ty[0] == 'tuple':
    if ty[1] and all(x == ty[1][0] for x in ty[1]):
      return ty[1][0]
  return None


# ------------------------------------------------------------------- lengths
SIZE = [None]     # when set, every list that is given to the function has this length


def sized(t):
  if t.op == 'sym':
    ok = str(t.args[0]).startswith('$') and not str(t.args[0]).startswith('$in')
  else:
    ok = t.op in ('attr', 'item') or t.op == 'call' and SIZE[0] > 0 and t.args[0].op == 'func'
  return ok and (type_of(t) or ('?',))[0] == 'seq'


def length(t):
  if t.op == 'lst':
    r = ZERO
    for s in t.args[0]:
      r = tm.add(r, seg_len(s))
    return r
  if tm.is_str(t):
    return const(len(t.args[1]))
  if t.op == 'cat':
    r = ZERO
    for p in t.args[0]:
      r = tm.add(r, length(p))
    return r
  if t.op == 'ite':
    return ite(t.args[0], length(t.args[1]), length(t.args[2]))
  if t.op == 'slice' and t.args[3] is NONE:
    x, lo, hi, _ = t.args
    # exact only when in range is known; keep symbolic except for full slices
    if lo in (NONE, ZERO) and hi is NONE:
      return length(x)
  if t.op == 'rev':
    return length(t.args[0])
  if t.op == 'store' and (type_of(t.args[0]) or ('?',))[0] == 'seq':
    return length(t.args[0])
  if t.op in ('strl', 'strx'):
    from .calls import mk_sum
    if t.op == 'strl':
      return mk_sum(t.args[0], t.args[1], length(t.args[2]))
    from .seqops import mk_item
    xs = t.args[0]
    return mk_sum(length(xs), FALSE, length(mk_item(tm._shift(xs, 1), T('db', 0, 0))))
  if t.op == 'rec':
    ci = cls_of(t.args[0])
    if ci is not None and REPO[0].kind(ci) == 'namedtuple':
      return const(len(t.args[1]))
  if t.op == 'dct' and all(s.op == 'e' and is_constlike(s.args[0].args[0]) for s in t.args[0]):
    return const(len(set(s.args[0].args[0] for s in t.args[0])))
  if SIZE[0] is not None and sized(t):
    return const(SIZE[0])
  if t.op == 'item' or t.op == 'attr' or True:
    ty = type_of(t)
    if ty and ty[0] == 'tuple':
      return const(len(ty[1]))
  return T('len', t)


def seg_len(s):
  if s.op == 'e':
    return ONE
  if s.op == 'x':
    return length(s.args[0])
  if s.op == 'br':
    return ite(s.args[0], segs_len(s.args[1]), segs_len(s.args[2]))
  if s.op == 'L':
    inner = segs_len(s.args[2])
    if s.args[1] is FALSE and not inner._hasdb:
      return tm.mul(s.args[0], inner)
    return T('sum', s.args[0], s.args[1], inner)
  return T('len', T('lst', (s,)))


def segs_len(segs):
  r = ZERO
  for s in segs:
    r = tm.add(r, seg_len(s))
  return r


tm.REBUILD['len'] = length


# ---------------------------------------------------------------- conditions
def _int_poly(p):
  ty = type_of(p)
  if ty in (INT, BOOL) or is_intenum(ty):
    return True
  if p.op == 'poly' and ty is None:
    # counts and offsets: mixed with values known to be integers, none known to be a float
    known = False
    for m, c in p.args[0]:
      if c.denominator != 1:
        return False
      for at, pw in m:
        if pw < 0:
          return False
        t = type_of(at)
        if t in (INT, BOOL) or (t and t[0] == 'union' and INT in t[1] and FLOAT not in t[1]):
          known = True
        elif t is not None and not is_intenum(t):
          return False
    return known
  return False


def _norm_scale(d):
  """Divide by the (positive) content."""
  from math import gcd
  if not d:
    return d
  den = 1
  for c in d.values():
    den = den * c.denominator // gcd(den, c.denominator)
  g = 0
  for m, c in d.items():
    g = gcd(g, int(abs(c * den)))
  if g == 0:
    return d
  return {m: c * den / g for m, c in d.items()}


def _lead_neg(d):
  ms = sorted((m for m in d if m != ()), key=tm._mkey)
  return bool(ms) and d[ms[0]] < 0


def has_ite_atom(p):
  if p.op == 'ite':
    return p
  if p.op == 'poly':
    for m, c in p.args[0]:
      for at, pw in m:
        if at.op == 'ite':
          return at
  return None


def gt0(p):
  if tm.is_num(p):
    return TRUE if tm.num(p) > 0 else FALSE
  if tm.is_bool(p):
    return p
  if p.op == 'const':
    return T('gt0', p)
  if p.op == 'len' and p.args[0].op == 'slice':
    b, lo, hi, step = p.args[0].args
    if hi is NONE and step is NONE and lo is not NONE:
      return tm.and_(lt(lo, length(b)), gt0(length(b)))
  if p._size < 400:
    at = has_ite_atom(p)
    if at is not None:
      c, x, y = at.args
      return ite(c, gt0(tm.replace_terms(p, {at: x})), gt0(tm.replace_terms(p, {at: y})))
  d = tm.poly_dict(p)
  isint = _int_poly(p)
  if isint:
    # p > 0; scale non-constant part content with floor tightening
    from math import gcd
    g = 0
    for m, c in d.items():
      if m != ():
        g = gcd(g, int(abs(c)))
    if g > 1:
      k = d.get((), Fraction(0))
      # g*q + k > 0  <=> q > -k/g <=> q >= floor(-k/g)+1 <=> q - floor(-k/g) > 0
      fl = (-k) // g
      d = {m: c / g for m, c in d.items() if m != ()}
      if fl:
        d[()] = Fraction(-fl)
    if _lead_neg(d):
      # -q > 0 with int q  <=> not (q > -1) <=> not (q + 1 > 0)
      q = {m: -c for m, c in d.items()}
      q[()] = q.get((), Fraction(0)) + 1
      return not_(_gt0_atom(tm.poly_make(q)))
    return _gt0_atom(tm.poly_make(d))
  d = _norm_scale(d)
  if _lead_neg(d):
    q = tm.poly_make({m: -c for m, c in d.items()})
    return ite(T('gt0', q), FALSE, not_(eq0(q)))
  return T('gt0', tm.poly_make(d))


def _gt0_atom(p):
  if tm.is_num(p):
    return TRUE if tm.num(p) > 0 else FALSE
  # len(x)+1 > 0 and so on: nonneg combination
  if nonneg_lower(p) is not None and nonneg_lower(p) > 0:
    return TRUE
  return T('gt0', p)


def nonneg_lower(p):
  """A lower bound of p when all its atoms are non-negative, else None."""
  d = tm.poly_dict(p)
  lo = Fraction(0)
  for m, c in d.items():
    if m == ():
      lo += c
      continue
    if c < 0:
      return None
    for at, pw in m:
      if at.op == 'meth' and at.args[0] in ('find', 'rfind') and len(m) == 1 and pw == 1:
        lo -= c
      elif at.op == 'meth' and at.args[0] in ('index', 'rindex', 'count') and type_of(at) == INT:
        continue
      elif not natural(at):
        return None
  return lo


def natural(at):
  return at.op in ('len', 'nat') or at.op == 'item' and at.args[0].op == 'attr' and at.args[0].args[1] == 'shape'


def eq0(p):
  if tm.is_num(p):
    return TRUE if tm.num(p) == 0 else FALSE
  if tm.is_bool(p):
    return not_(p)
  if p._size < 400:
    at = has_ite_atom(p)
    if at is not None:
      c, x, y = at.args
      return ite(c, eq0(tm.replace_terms(p, {at: x})), eq0(tm.replace_terms(p, {at: y})))
  d = _norm_scale(tm.poly_dict(p))
  if _lead_neg(d):
    d = {m: -c for m, c in d.items()}
  p = tm.poly_make(d)
  lo = nonneg_lower(p)
  if lo is not None:
    if lo > 0:
      return FALSE
    if lo == 0 and _int_poly(p):
      return not_(gt0(p))
  # (x - const) for non-numeric constants
  if len(d) == 2 and () not in d:
    (m, c), (n, k) = d.items()
    if len(m) == len(n) == 1 and m[0][1] == n[0][1] == 1 and c == -k:
      x, y = m[0][0], n[0][0]
      if 'enum' in (x.op, y.op):
        return isc(y, x) if x.op == 'enum' else isc(x, y)
  return T('eq0', p)


tm.REBUILD['gt0'] = lambda p: gt0(p)
tm.REBUILD['eq0'] = lambda p: eq0(p)

_BOOL_OPS = {'isc', 'isinst', 'gt0', 'eq0', 'truthy', 'in'}


def enum_value(t):
  """Constant value of an enum member, or None."""
  ci = cls_of(t.args[0])
  if ci is None:
    return None
  node = ci.member_vals.get(t.args[1])
  if isinstance(node, ast.Constant):
    return const(node.value)
  if isinstance(node, ast.Call) and (dotted(node.func) or '').endswith('auto'):
    vals = 0
    for m in ci.members:
      n = ci.member_vals[m]
      if isinstance(n, ast.Constant) and isinstance(n.value, int):
        vals = n.value
      else:
        vals += 1
      if m == t.args[1]:
        return const(vals)
  return None


def truth(t):
  op = t.op
  if op == 'const':
    return TRUE if tm.truth_const(t) else FALSE
  if op in _BOOL_OPS:
    return t
  if op == 'ite':
    return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
  if op == 'lst' or op == 'cat':
    return gt0(length(t))
  if op in ('func', 'cls', 'clo', 'mod', 'lam'):
    return TRUE
  if op == 'enum':
    if is_intenum(('cls', t.args[0])):
      v = enum_value(t)
      return truth(v) if v is not None else T('truthy', t)
    return TRUE
  if op in ('dct', 'set'):
    if any(s.op == 'e' for s in t.args[0]):
      return TRUE
    if not t.args[0]:
      return FALSE
    return gt0(T('len', T('lst', t.args[0])))
  if op == 'rec':
    return TRUE
  ty = type_of(t)
  if ty is None:
    return T('truthy', t)
  if ty == BOOL:
    return T('truthy', t)
  if ty in (INT, FLOAT):
    return not_(eq0(t))
  if ty == STR or ty[0] in ('seq', 'dict', 'tuple'):
    return gt0(length(t))
  if ty[0] == 'cls':
    ci = cls_of(ty[1])
    if SIZE[0] is not None and ci is not None and REPO[0].kind(ci) != 'enum':
      return TRUE      # objects with a length have contents
    if ci is not None and REPO[0].kind(ci) != 'enum' and REPO[0].find_method(ci, '__len__') is None \
        and REPO[0].find_method(ci, '__bool__') is None:
      return TRUE
    if ci is not None and REPO[0].kind(ci) == 'enum' and not is_intenum(ty):
      return TRUE
    return T('truthy', t)
  if ty[0] == 'union' and NONET in ty[1]:
    s = strip_none(ty)
    nn = not_(isc(t, NONE))
    if s == STR or s[0] in ('seq', 'dict', 'tuple'):
      return and_(nn, gt0(length(t)))
    if s in (INT, FLOAT):
      return and_(nn, not_(eq0(t)))
    if s[0] == 'callable':
      return nn
    if s[0] == 'cls':
      ci = cls_of(s[1])
      if ci is not None and not is_intenum(s) and REPO[0].find_method(ci, '__len__') is None \
          and REPO[0].find_method(ci, '__bool__') is None:
        return nn
    return T('truthy', t)
  if ty == NONET:
    return FALSE
  if ty[0] == 'callable':
    return TRUE
  return T('truthy', t)


tm.REBUILD['truthy'] = truth


def isc(x, c):
  """x equals the constant c (None / str / bool / enum)."""
  if x.op == 'ite':
    return ite(x.args[0], isc(x.args[1], c), isc(x.args[2], c))
  if x is c:
    return TRUE
  if x.op == 'const':
    if c.op == 'const':
      return FALSE
    return FALSE
  if x.op == 'enum':
    if c.op == 'enum':
      if is_intenum(('cls', x.args[0])) and is_intenum(('cls', c.args[0])):
        a, b = enum_value(x), enum_value(c)
        if a is not None and b is not None:
          return TRUE if a is b else FALSE
      return FALSE
    return FALSE
  if c is NONE:
    if x.op in ('lst', 'cat', 'rec', 'dct', 'poly', 'func', 'cls', 'clo', 'ref', 'len', 'lam', 'strl', 'sum',
                'gt0', 'eq0', 'isinst', 'isc'):
      return FALSE
    ty = type_of(x)
    if ty is not None and ty != NONET and not (ty[0] == 'union' and NONET in ty[1]):
      return FALSE
  if c.op == 'const' and c.args[0] == 'bool':
    if type_of(x) == BOOL:
      t = truth(x)
      return t if c is TRUE else not_(t)
  if c.op == 'const' and c.args[0] == 'str':
    if x.op in ('lst', 'rec', 'dct', 'poly', 'len'):
      return FALSE
    if c.args[1] == '' and type_of(x) == STR:
      return not_(gt0(length(x)))
    if x.op == 'cat':
      # quick refutation by constant prefix / suffix
      p0 = x.args[0][0]
      if tm.is_str(p0):
        s, v = c.args[1], p0.args[1]
        if not s.startswith(v):
          return FALSE
        rest = tm.cat(*x.args[0][1:])
        return isc(rest, const(s[len(v):]))
  if c.op == 'enum' and x.op in ('lst', 'rec', 'dct', 'cat'):
    return FALSE
  if c.op == 'enum':
    ty = type_of(x)
    if ty is not None and ty[0] == 'cls' and ty[1] != c.args[0] and is_intenum(ty) and is_intenum(('cls', c.args[0])):
      # members of integer enumerations are equal when their numbers are
      v = enum_value(c)
      for m in enum_domain(ty) or ():
        if enum_value(m) is v:
          return T('isc', x, m)
      return FALSE
  return T('isc', x, c)


tm.REBUILD['isc'] = isc


def is_constlike(t):
  return t.op == 'enum' or (t.op == 'const' and t.args[0] in ('none', 'str', 'bool', 'bytes', 'fnum', 'ellipsis'))


def eq(a, b):
  if a is b:
    return TRUE
  if a.op == 'ite':
    return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
  if b.op == 'ite':
    return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
  if tm.is_num(a) and tm.is_num(b):
    return FALSE
  if is_constlike(a) and is_constlike(b):
    return isc(a, b)
  if is_constlike(b):
    if tm.is_num(a):
      return _num_const(a, b)
    return isc(a, b)
  if is_constlike(a):
    if tm.is_num(b):
      return _num_const(b, a)
    return isc(b, a)
  if tm.is_num(a) and b.op in ('lst', 'rec', 'cat', 'dct', 'cls', 'func'):
    return FALSE
  if tm.is_num(b) and a.op in ('lst', 'rec', 'cat', 'dct', 'cls', 'func'):
    return FALSE
  if a.op == 'rec' and b.op == 'rec':
    if a.args[0] != b.args[0]:
      return FALSE
    r = TRUE
    fb = dict(b.args[1])
    for f, v in a.args[1]:
      if f not in fb:
        return T('eq0', tm.sub(a, b))
      r = and_(r, eq(v, fb[f]))
    return r
  if a.op == 'lst' and b.op == 'lst':
    sa, sb = a.args[0], b.args[0]
    if all(s.op == 'e' for s in sa) and all(s.op == 'e' for s in sb):
      if len(sa) != len(sb):
        return FALSE
      r = TRUE
      for x, y in zip(sa, sb):
        r = and_(r, eq(x.args[0], y.args[0]))
      return r
  if a.op == 'lst' and not a.args[0]:
    return not_(truth(b)) if (type_of(b) or ('',))[0] in ('seq', 'dict') else eq0(tm.sub(a, b))
  if b.op == 'lst' and not b.args[0]:
    return not_(truth(a)) if (type_of(a) or ('',))[0] in ('seq', 'dict') else eq0(tm.sub(a, b))
  if a.op in ('cls', 'func', 'ext', 'bi') and b.op in ('cls', 'func', 'ext', 'bi'):
    return FALSE
  if type_of(a) == BOOL and type_of(b) == BOOL:
    return ite(truth(a), truth(b), not_(truth(b)))
  return eq0(tm.sub(a, b))


def _num_const(n, c):
  if c.op == 'const' and c.args[0] == 'bool':
    return TRUE if tm.num(n) == (1 if c.args[1] else 0) else FALSE
  if c.op == 'enum' and is_intenum(('cls', c.args[0])):
    v = enum_value(c)
    return TRUE if v is n else FALSE
  return FALSE


def lt(a, b):
  return gt0(tm.sub(_numify(b), _numify(a)))


def _numify(t):
  if t.op == 'enum' and is_intenum(('cls', t.args[0])):
    v = enum_value(t)
    if v is not None:
      return v
  return t


def le(a, b):
  return not_(lt(b, a))


def isinst(t, q):
  """q: class qualname or builtin name like 'bi:str'."""
  if t.op == 'ite':
    return ite(t.args[0], isinst(t.args[1], q), isinst(t.args[2], q))
  repo = REPO[0]
  ty = type_of(t)
  r = _type_inst(ty, q)
  if q == 'bi:list' and t.op in ('attr', 'item') and ty and ty[0] == 'seq':
    return TRUE
  if t.op in ('rec',):
    ci, cq = cls_of(t.args[0]), cls_of(q) if not q.startswith('bi:') else None
    if ci is not None and cq is not None:
      return TRUE if repo.is_subclass(ci, cq) else FALSE
  if r is True:
    return TRUE
  if r is False:
    return FALSE
  return T('isinst', t, q)


def _type_inst(ty, q):
  if ty is None:
    return None
  if ty[0] == 'union':
    rs = [_type_inst(u, q) for u in ty[1]]
    if all(r is True for r in rs):
      return True
    if all(r is False for r in rs):
      return False
    return None
  if ty[0] == 'cls':
    if q.startswith('bi:'):
      if q == 'bi:int' and is_intenum(ty):
        return True
      ci = cls_of(ty[1])
      if ci is not None and REPO[0].kind(ci) == 'namedtuple':
        return q == 'bi:tuple'
      return False if ci is not None else None
    ci, cq = cls_of(ty[1]), cls_of(q)
    if ci is None or cq is None:
      return None
    if REPO[0].is_subclass(ci, cq):
      return True
    if REPO[0].is_subclass(cq, ci):
      return None
    return False
  m = {STR: 'bi:str', INT: 'bi:int', FLOAT: 'bi:float', BOOL: 'bi:bool'}
  if ty in m:
    if m[ty] == q:
      return True
    if ty == BOOL and q == 'bi:int':
      return True
    if ty in (INT, FLOAT) and q in ('bi:int', 'bi:float'):
      return None
    return False
  if ty == NONET:
    return False
  if ty[0] in ('seq', 'dict', 'tuple') and (not q.startswith('bi:') or q in ('bi:str', 'bi:int', 'bi:float')):
    return False
  if ty[0] == 'dict' and q == 'bi:dict':
    return True
  return None


tm.REBUILD['isinst'] = isinst


def member(a, c):
  if c.op == 'ite':
    return ite(c.args[0], member(a, c.args[1]), member(a, c.args[2]))
  if a.op == 'ite':
    return ite(a.args[0], member(a.args[1], c), member(a.args[2], c))
  if c.op == 'lst':
    r = FALSE
    rest = []
    for s in c.args[0]:
      if s.op == 'e':
        r = or_(r, eq(a, s.args[0]))
      elif s.op == 'x':
        r = or_(r, member(a, s.args[0]))
      else:
        rest.append(s)
    if rest:
      r = or_(r, T('in', a, T('lst', tuple(rest))))
    return r
  if c.op == 'dct':
    if all(s.op == 'e' for s in c.args[0]):
      r = FALSE
      for s in c.args[0]:
        r = or_(r, eq(a, s.args[0].args[0]))
      return r
    return T('in', a, c)
  if c.op == 'set':
    return member(a, T('lst', c.args[0]))
  if c.op == 'call' and c.args[0].op == 'bi' and c.args[0].args[0] in ('set', 'frozenset', 'list', 'tuple') and len(c.args[1]) == 1:
    return member(a, c.args[1][0])
  if c.op == 'meth' and c.args[0] == 'keys':
    return member(a, c.args[1])
  if tm.is_str(c) and tm.is_str(a):
    return TRUE if a.args[1] in c.args[1] else FALSE
  if type_of(c) == STR:
    return gt0(tm.add(T('meth', 'find', c, (a,), ()), tm.const(1)))
  return T('in', a, c)


tm.REBUILD['in'] = member


# --------------------------------------------------------------------- facts
class Facts:
  """Conjunction of literals over normalised atoms."""
  __slots__ = ('known', 'excl', 'inst', 'ninst', 'lin', 'eqs', 'other', '_memo', 'atoms')

  def __init__(self):
    self.known = {}     # term -> constant
    self.excl = {}      # term -> frozenset of constants
    self.inst = {}      # term -> frozenset(class quals)
    self.ninst = {}
    self.lin = ()       # polys p (dict) with p >= 0 (or > 0 flagged)
    self.eqs = ()
    self.other = {}
    self.atoms = ()
    self._memo = {}

  def _copy(self):
    f = Facts()
    f.known = dict(self.known)
    f.excl = dict(self.excl)
    f.inst = dict(self.inst)
    f.ninst = dict(self.ninst)
    f.lin = self.lin
    f.eqs = self.eqs
    f.other = dict(self.other)
    f.atoms = self.atoms
    return f

  # ---- assume
  def assume(self, cond, val=True):
    """Returns Facts with cond == val, or None if contradictory."""
    cond = self.simp(cond)
    if cond in (TRUE, FALSE):
      return self if (cond is TRUE) == val else None
    if cond.op == 'ite':
      c, a, b = cond.args
      want = TRUE if val else FALSE
      bad = FALSE if val else TRUE
      if a is bad:
        f = self.assume(c, False)
        return f.assume(b, val) if f is not None else None
      if b is bad:
        f = self.assume(c, True)
        return f.assume(a, val) if f is not None else None
      # decide by feasibility
      f1 = self.assume(c, True)
      f1 = f1.assume(a, val) if f1 is not None else None
      f2 = self.assume(c, False)
      f2 = f2.assume(b, val) if f2 is not None else None
      if f1 is None:
        return f2
      if f2 is None:
        return f1
      f = self._copy()
      f.other[cond] = val
      f.atoms = f.atoms + ((cond, val),)
      # keep what both branches agree on
      return f
    return self._assume_atom(cond, val)

  def _assume_atom(self, a, val):
    q = self.query(a)
    if q is not None:
      return self if q == val else None
    f = self._copy()
    f.atoms = f.atoms + ((a, val),)
    if a.op == 'isc':
      x, c = a.args
      if val:
        f.known[x] = c
      else:
        f.excl[x] = f.excl.get(x, frozenset()) | {c}
        dom = enum_domain(type_of(x))
        if dom is not None:
          rest = [d for d in dom if d not in f.excl[x]]
          if not rest:
            return None
          if len(rest) == 1:
            f.known[x] = rest[0]
    elif a.op == 'isinst':
      x, q_ = a.args
      if val:
        f.inst[x] = f.inst.get(x, frozenset()) | {q_}
      else:
        f.ninst[x] = f.ninst.get(x, frozenset()) | {q_}
        ty = type_of(x)
        if ty and ty[0] == 'union':
          rest = [u for u in ty[1] if not any(_type_inst(u, n) for n in f.ninst[x])]
          if not rest:
            return None
    elif a.op == 'gt0':
      p = a.args[0]
      if val:
        f.lin = f.lin + ((p, True),)
      else:
        f.lin = f.lin + ((tm.neg(p), False),)
    elif a.op == 'eq0':
      p = a.args[0]
      f.other[a] = val
      if p.op != 'poly' and type_of(p) is None:
        f.other[T('truthy', p)] = not val
      if val:
        f.eqs = f.eqs + (p,)
        # x - c = 0: numeric constant value
        d = tm.poly_dict(p)
        nc = [m for m in d if m != ()]
        if len(nc) == 1 and len(nc[0]) == 1 and nc[0][0][1] == 1:
          f.known[nc[0][0][0]] = const(-d.get((), Fraction(0)) / d[nc[0]])
    else:
      f.other[a] = val
      if a.op == 'truthy':
        # for a container; no len(x) occurs if x is none
        n = T('len', a.args[0])
        f.lin = f.lin + (((n, True) if val else (tm.neg(n), False)),)
        if type_of(a.args[0]) is None:
          z = eq0(a.args[0])
          if z.op == 'eq0':
            f.other[z] = not val
      if a.op == 'truthy' and val:
        f.excl[a.args[0]] = f.excl.get(a.args[0], frozenset()) | {NONE}
    return f

  # ---- query
  def query(self, a):
    if a in self._memo:
      return self._memo[a]
    r = self._query(a)
    self._memo[a] = r
    return r

  def _query(self, a):
    if a is TRUE:
      return True
    if a is FALSE:
      return False
    if a in self.other:
      return self.other[a]
    op = a.op
    if op == 'isc':
      x, c = a.args
      if x in self.known:
        return self.known[x] is c
      if c in self.excl.get(x, ()):
        return False
      if c is NONE and (x in self.inst):
        return False
      dom = enum_domain(type_of(x))
      if dom is not None and c.op == 'enum' and c not in dom:
        return False
      if c.op == 'enum':
        for at, v in self.other.items():
          # x equals (or differs from) another value that is known (or known not) to be c
          d = tm.poly_dict(at.args[0]) if at.op == 'eq0' else ()
          if len(d) == 2 and d.get(((x, 1),)) in (1, -1):
            y = [m for m in d if m != ((x, 1),)][0]
            if len(y) == 1 and y[0][1] == 1 and d[y] == -d[((x, 1),)]:
              y = y[0][0]
              if y in self.known and self.known[y].op == 'enum':
                if v or self.known[y] is c:
                  return v and self.known[y] is c
              elif v and c in self.excl.get(y, ()):
                return False
      return None
    if op == 'isinst':
      x, q = a.args
      if x in self.known:
        r = isinst(self.known[x], q)
        return True if r is TRUE else False if r is FALSE else None
      repo = REPO[0]
      cq = cls_of(q) if not q.startswith('bi:') else None
      for p in self.inst.get(x, ()):
        if p == q:
          return True
        cp = cls_of(p) if not p.startswith('bi:') else None
        if cp is not None and cq is not None:
          if repo.is_subclass(cp, cq):
            return True
          if not repo.is_subclass(cq, cp):
            return False
        elif p.startswith('bi:') != q.startswith('bi:'):
          return False
        elif p.startswith('bi:'):
          if {p, q} <= {'bi:int', 'bi:bool', 'bi:float'}:
            return None
          return False
      if q in self.ninst.get(x, ()):
        return False
      ty = type_of(x)
      if ty and ty[0] == 'union' and self.ninst.get(x):
        rest = [u for u in ty[1] if not any(_type_inst(u, n) for n in self.ninst[x])]
        if NONE in self.excl.get(x, ()):
          rest = [u for u in rest if u != NONET]
        if rest:
          rs = [_type_inst(u, q) for u in rest]
          if all(r is True for r in rs):
            return True
          if all(r is False for r in rs):
            return False
      return None
    if op == 'gt0':
      p = a.args[0]
      if not self.lin and not self.eqs and not _has_implicit(p):
        return None
      if self._infeasible(p, True):
        return False
      if self._infeasible(tm.neg(p), False):
        return True
      return None
    if op == 'eq0':
      p = a.args[0]
      if a.args[0].op != 'poly' and not self.lin and not self.eqs:
        return None
      if self.lin or self.eqs:
        if self._infeasible(p, None):
          return False
        if self._infeasible(p, True) and self._infeasible(tm.neg(p), True):
          return True
      return None
    if op == 'truthy':
      x = a.args[0]
      if x in self.known:
        r = truth(self.known[x])
        return True if r is TRUE else False if r is FALSE else None
      n = T('len', x)
      if any(n in tm.children_of_poly(q) for q, _ in self.lin) or any(n in tm.children_of_poly(q) for q in self.eqs):
        return self.query(gt0(n))
      return None
    return None

  def _infeasible(self, p, strict):
    """Is facts & (p > 0 | p >= 0 | p == 0) linearly infeasible?"""
    cons = []
    vars_ = set(m for m in tm.poly_dict(p) if m != ())
    pool = [(q, s) for q, s in self.lin] + [(q, None) for q in self.eqs]
    changed = True
    chosen = []
    while changed:
      changed = False
      rest = []
      for q, s in pool:
        vs = set(m for m in tm.poly_dict(q) if m != ())
        if vs & vars_:
          chosen.append((q, s))
          vars_ |= vs
          changed = True
        else:
          rest.append((q, s))
      pool = rest
    for q, s in chosen + [(p, strict)]:
      d = tm.poly_dict(q)
      if s is None:
        cons.append((d, False))
        cons.append(({m: -c for m, c in d.items()}, False))
      else:
        cons.append(_tighten(d, s, q))
    for m in vars_:
      if len(m) == 1 and natural(m[0][0]) and m[0][1] == 1:
        cons.append(({m: Fraction(1)}, False))
    if fm_infeasible(cons):
      return True
    n = 0
    for a, v in self.other.items():
      if v or a.op != 'eq0':
        continue
      q = a.args[0]
      d = tm.poly_dict(q)
      if not any(m in vars_ for m in d if m != ()):
        continue
      n += 1
      if n > 4:
        break
      if fm_infeasible(cons + [_tighten(d, True, q)]) and fm_infeasible(cons + [_tighten(tm.poly_dict(tm.neg(q)), True, tm.neg(q))]):
        return True
    return False

  # ---- simplification
  def simp(self, t):
    if not (self.known or self.excl or self.inst or self.ninst or self.lin or self.eqs or self.other):
      return t
    memo = self._memo

    def go(x):
      key = ('s', x)
      r = memo.get(key)
      if r is not None:
        return r
      if x in self.known:
        r = self.known[x]
      elif x.op in _BOOL_OPS:
        q = self.query(x)
        if q is None and x._size < 3000:
          y = tm.rebuild(x, [tm._map_arg(a, go) for a in x.args])
          if y is not x:
            if y.op in _BOOL_OPS:
              q = self.query(y)
              r = y if q is None else (TRUE if q else FALSE)
            else:
              r = y
          else:
            r = x
        else:
          r = x if q is None else (TRUE if q else FALSE)
      elif x.op == 'ite':
        c = go(x.args[0])
        if x in self.other:
          r = TRUE if self.other[x] else FALSE
        elif c is TRUE:
          r = go(x.args[1])
        elif c is FALSE:
          r = go(x.args[2])
        else:
          r = ite(c, go(x.args[1]), go(x.args[2]))
      elif x.op in ('br',):
        c = go(x.args[0])
        r = T('br', c, tm._map_arg(x.args[1], go), tm._map_arg(x.args[2], go))
      elif not x.args or x.op in ('const', 'sym', 'fv', 'enum', 'func', 'cls', 'ext', 'bi', 'mod', 'top', 'db'):
        r = x
      else:
        r = tm.rebuild(x, [tm._map_arg(a, go) for a in x.args])
      memo[key] = r
      return r

    return go(t)


def _has_implicit(p):
  for m in tm.poly_dict(p):
    for at, pw in m:
      if natural(at):
        return True
  return False


def _tighten(d, strict, p):
  if strict and _int_poly(p):
    d = dict(d)
    d[()] = d.get((), Fraction(0)) - 1
    return (d, False)
  return (d, strict)


def fm_infeasible(cons, limit=160):
  """Fourier-Motzkin over the rationals; True only when certainly infeasible."""
  cons = [(dict((m, c) for m, c in d.items() if c), s) for d, s in cons]
  while True:
    nxt = []
    for d, s in cons:
      nc = [m for m in d if m != ()]
      if not nc:
        k = d.get((), Fraction(0))
        if k < 0 or (s and k <= 0):
          return True
      else:
        nxt.append((d, s))
    cons = nxt
    if not cons:
      return False
    # choose the variable with the fewest products
    vars_ = {}
    for d, s in cons:
      for m, c in d.items():
        if m != ():
          p, n = vars_.get(m, (0, 0))
          vars_[m] = (p + 1, n) if c > 0 else (p, n + 1)
    v = min(vars_, key=lambda m: (vars_[m][0] * vars_[m][1], vars_[m]))
    pos = [(d, s) for d, s in cons if d.get(v, 0) > 0]
    negs = [(d, s) for d, s in cons if d.get(v, 0) < 0]
    keep = [(d, s) for d, s in cons if not d.get(v, 0)]
    for dp, sp in pos:
      for dn, sn in negs:
        cp, cn = dp[v], -dn[v]
        d = {}
        for m, c in dp.items():
          d[m] = d.get(m, 0) + c * cn
        for m, c in dn.items():
          d[m] = d.get(m, 0) + c * cp
        d = {m: c for m, c in d.items() if c}
        d.pop(v, None)
        keep.append((d, sp or sn))
    if len(keep) > limit:
      return False
    cons = keep


def enum_domain(ty):
  if not ty:
    return None
  if ty[0] == 'cls':
    ci = cls_of(ty[1])
    if ci is not None and REPO[0].kind(ci) == 'enum':
      return [T('enum', ty[1], m) for m in ci.members]
    return None
  if ty == BOOL:
    return [TRUE, FALSE]
  if ty[0] == 'union' and len(ty[1]) <= 3:
    out = []
    for u in ty[1]:
      if u == NONET:
        out.append(NONE)
        continue
      d = enum_domain(u)
      if d is None:
        return None
      out.extend(d)
    return out
  return None


def reset():
  _tcache.clear()

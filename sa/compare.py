"""Three-valued comparison of gated summaries: equal / different / undecided.

`different` is only returned when the mismatch is between rigid terms (data the
program is free to vary, constants, enum members, records, known operations) on
a case that the fact domain does not refute.
"""
from . import terms as tm
from . import conds as cd
from . import seqops as so
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const, ite, and_, or_, not_, INF

EQ, UNK, DIFF = 0, 1, 2


class Res:
  __slots__ = ('v', 'msg')

  def __init__(self, v, msg=''):
    self.v = v
    self.msg = msg


R_EQ = Res(EQ)

NONIDENTITY = {
    'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'sorted', 'set', 'abs', 'round', 'title',
    'html.unescape', 'html.escape', 'casefold', 'swapcase', 'expandtabs', 'frozenset', 'repr', 'splitlines',
}
# library operations with several ways to say the same thing
RELATED = {'find', 'rfind', 'index', 'rindex', 'count', 'startswith', 'endswith', 'split', 'rsplit', 'splitlines', 'partition',
           'rpartition', 'isspace', 'strip', 'lstrip', 'rstrip', 'match', 'search', 'fullmatch', 'get', 'end', 'start', 'span', 'group'}
_SIMPLE = {'const', 'enum', 'sym', 'fv', 'attr', 'item', 'slice', 'poly', 'cat', 'rec', 'lst', 'len', 'rev',
           'repl', 'str', 'func', 'cls', 'bi', 'ext', 'range', 'gt0', 'eq0', 'isc', 'isinst', 'truthy', 'in',
           'e', 'x', 'br', 'kv', 'setcell', 'dct', 'set', 'exc', 'fmt', 'store', 'emit', 'ev', 'keys', 'tup', 'sl'}
_DISTINCT = {'Gt', 'GtE', 'Eq', 'NotEq', 'BitAnd', 'BitOr'}
_LOOPY = {'L', 'sum', 'strl', 'loop', 'out', 'exists', 'first', 'lam', 'fix', 'body', 'indout', 'iters',
          'strx', 'lastof', 'emits', 'rt', 'rs', 'self', 'db', 'res', 'emitinit'}


def heads(t, memo={}):
  """Names of operations in a term (vocabulary)."""
  r = memo.get(t)
  if r is None:
    s = set()
    if t.op in ('func', 'bi', 'ext', 'cls'):
      s.add((t.op, t.args[0]))
    elif t.op == 'meth':
      s.add(('meth', t.args[0]))
    elif t.op == 'ev':
      s.add(('meth', t.args[0]))
    elif t.op not in _SIMPLE:
      s.add(('op', t.op))
    for c in tm.children(t):
      s |= heads(c)
    r = frozenset(s)
    memo[t] = r
  return r


def subterms(t):
  """Closed computations (loops, calls) in t."""
  out, seen, todo = set(), set(), [t]
  while todo:
    x = todo.pop()
    if x in seen:
      continue
    seen.add(x)
    if x.op in ('sum', 'strl', 'loop', 'out', 'first', 'exists', 'strx', 'fix', 'bin', 'call', 'meth', 'dct') and not (x._hasdb and _dangling(x, 0, {})):
      out.add(x)
    todo.extend(tm.children(x))
  return out


def atoms_of(t, memo={}):
  r = memo.get(t)
  if r is None:
    s = set()
    if t.op in cd._BOOL_OPS:
      s.add(t)
    for c in tm.children(t):
      s |= atoms_of(c)
    r = frozenset(s)
    memo[t] = r
  return r


def pick_atom(c):
  """Leftmost undecided atom of a boolean formula."""
  while c.op == 'ite':
    c = c.args[0]
  inner = nested_cond(c)
  return c if inner is None else pick_atom(inner)


def nested_cond(t, memo={}):
  """Condition of some conditional value inside t that mentions no bound variable."""
  if t in memo:
    return memo[t]
  r = None
  for c in tm.children(t):
    if c.op == 'ite' and not c.args[0]._hasdb:
      r = c.args[0]
      break
    r = nested_cond(c)
    if r is not None:
      break
  memo[t] = r
  return r


def decided(f, c):
  r = f.simp(c)
  return True if r is TRUE else False if r is FALSE else None


def numeric(t):
  return t.op == 'poly' or tm.is_num(t) or cd.type_of(t) in (cd.INT, cd.FLOAT)


def ordered(t):
  return numeric(t) or (t.op in ('sym', 'call', 'item', 'attr', 'max', 'min') and cd.type_of(t) is None)


def closed_slices(t, memo={}):
  """Slices inside t that mention no bound variable."""
  r = memo.get(t)
  if r is None:
    r = frozenset()
    for c in tm.children(t):
      r |= closed_slices(c)
    if t.op == 'slice' and not t._hasdb and (len(t.args) < 4 or t.args[3] is NONE):
      r |= {t}
    memo[t] = r
  return r


def minmax_in(t, memo={}):
  """A minimum or maximum of two values inside t that mentions no bound variable."""
  if t in memo:
    return memo[t]
  r = t if t.op in ('min', 'max') and len(t.args[0]) == 2 and not t._hasdb else None
  if r is None:
    for c in tm.children(t):
      r = minmax_in(c)
      if r is not None:
        break
  memo[t] = r
  return r


ASSERTION = T('raise', T('exc', 'AssertionError'))


def seg_op(s):
  if s.op == 'br' and all(len(x) == 1 and seg_op(x[0]) == 'e' for x in s.args[1:3]):
    return 'e'
  return s.op


def only_calls(segs):
  """Segments that splice results of uninterpreted functions only."""
  for s in segs:
    if s.op == 'br':
      if not only_calls(s.args[1]) or not only_calls(s.args[2]):
        return False
    elif not (s.op == 'x' and s.args[0].op == 'call' and s.args[0].args[0].op == 'func'):
      return False
  return True


def count_body(b):
  """if(c, 1, if(d, ..., 0)): some element is counted."""
  if b.op == 'ite':
    return count_body(b.args[1]) or count_body(b.args[2])
  return tm.is_num(b) and tm.num(b) != 0


EXT_DEFAULTS = {
    'numpy.var': {'ddof': 0, 'axis': None}, 'numpy.std': {'ddof': 0, 'axis': None}, 'numpy.mean': {'axis': None}, 'numpy.sum': {'axis': None},
    'numpy.max': {'axis': None}, 'numpy.min': {'axis': None}, 'numpy.argmin': {'axis': None}, 'numpy.argmax': {'axis': None}}


def seg_keys(segs):
  for s in segs:
    if s.op == 'e' and s.args[0].op == 'tup' or s.op == 'e' and len(s.args[0].args) == 2:
      yield s.args[0].args[0]
    else:
      for x in s.args:
        if isinstance(x, tuple):
          yield from seg_keys([y for y in x if isinstance(y, tm.T)])


class Comparer:

  def __init__(self, spec, code, unordered=(), budget=60000):
    spec, code = erase(spec), erase(code)
    self.vs = heads(spec)
    self.vc = heads(code)
    self.spec0 = spec
    self.code0 = code
    self.unordered = unordered
    self.steps = 0
    self.budget = budget
    self.cases = 0
    self.leaves = 0
    self.memo = {}
    self.pairs = {}
    self.loopdiff = None
    self.atompairs = {}
    self.hmemo = {}
    self.shared = subterms(spec) & subterms(code)

  def heads(self, t):
    """Vocabulary of t, computations that occur on both sides counting as symbols."""
    r = self.hmemo.get(t)
    if r is None:
      if t in self.shared:
        r = frozenset()
      else:
        s = set()
        if t.op in ('func', 'bi', 'ext', 'cls'):
          s.add((t.op, t.args[0]))
        elif t.op in ('meth', 'ev'):
          s.add(('meth', t.args[0]))
        elif t.op not in _SIMPLE:
          s.add(('op', t.op))
        for c in tm.children(t):
          s |= self.heads(c)
        r = frozenset(s)
      self.hmemo[t] = r
    return r

  known = (frozenset(), frozenset())

  in_step = ()
  counts = (None, None)

  def run(self, given=()):
    return self.cmp_aligned(self.spec0, self.code0, self.given(cd.Facts(), given), (0, 0))

  @staticmethod
  def given(f, cs):
    for c in cs:
      f = f.assume(c) or f
    return f

  def cmp_aligned(self, a, b, f, rel, k=None):
    saved, self.loopdiff = self.loopdiff, None
    b = self.align(a, b, f)
    d, self.loopdiff = self.loopdiff, saved
    outer, self.known = self.known, (atoms_of(a), atoms_of(b))
    r = k(b) if k is not None else self.cmp(a, b, f, rel)
    self.known = outer
    if r.v == UNK and d is not None and d.v == DIFF and not (
        a.op == 'rec' and b.op == 'rec' and [k for k, _ in a.args[1]] != [k for k, _ in b.args[1]]):
      return d
    return r

  def align(self, a, b, f):
    """Rewrites loop summaries of b to equal ones of a (congruence)."""
    for _ in range(12):
      if a is b:
        return b
      la, lb = loopies(a), loopies(b)
      ma = sorted(la - lb, key=lambda t: t._size)
      mb = sorted(lb - la, key=lambda t: t._size)
      if not ma or not mb or len(ma) * len(mb) > 400:
        return b
      m = {}
      for y in mb:
        for x in ma:
          if x.op != y.op:
            continue
          k = (x, y)
          if k not in self.pairs:
            self.pairs[k] = UNK
            saved, self.budget = self.budget, min(self.budget, self.steps + 4000)
            self.pairs[k] = self.cmp(x, y, f, (0, 0)).v
            self.budget = saved
          if self.pairs[k] == EQ:
            m[y] = x
            break
          if self.pairs[k] == DIFF and y.op != 'fix' and len([z for z in ma if z.op == y.op]) == 1 and len([z for z in mb if z.op == y.op]) == 1:
            self.loopdiff = self.loopdiff or self.cmp(x, y, f, (0, 0))
        if m:
          break
      if not m:
        return b
      b = tm.replace_terms(b, m)
    return b

  # ---------------------------------------------------------------- helpers
  def opaque_atom(self, a):
    for h in self.heads(a):
      if h[0] == 'func' or h[0] == 'ext':
        if not (h in self.vs and h in self.vc):
          return True
      if h[0] == 'op' and h[1] not in ('call', 'meth'):
        return True
      if h[0] in ('meth', 'bi') and not (h in self.vs and h in self.vc):
        return True
      if h[0] == 'meth' and h[1] in RELATED:
        return True
    return False

  def rigid(self, t, side):
    """No constructs whose meaning could coincide with something else."""
    for h in self.heads(t):
      if h[0] in ('func', 'ext', 'bi', 'cls', 'meth'):
        if h in self.vs and (side == 's' or h in self.vs):
          continue
        if h[0] == 'cls':
          continue
        if h[1] in NONIDENTITY:
          continue
        return False
      if h[0] == 'op':
        if h[1] in ('call', 'meth', 'self', 'out'):
          continue
        return False
    return True

  def mism(self, a, b, rel, f, why=''):
    """Classify a structural mismatch."""
    ns, nc = rel
    if (a.op == 'str' and a.args[0] is b and cd.type_of(b) is None) or (b.op == 'str' and b.args[0] is a and cd.type_of(a) is None):
      return Res(EQ)   # joined to other text, so text itself
    for x, y in ((a, b), (b, a)):
      if (tm.is_str(x) and x.args[1] == '' and cd.type_of(y) == cd.STR or x.op == 'lst' and not x.args[0] and cd.type_of(y) != cd.STR) and decided(f, cd.gt0(cd.length(y))) is False:
        return Res(EQ)   # known to be empty
      if x.op == 'truthy' and x.args[0] is y and cd.type_of(y) in (cd.BOOL, None):
        return Res(EQ if cd.type_of(y) == cd.BOOL else UNK, 'a truth value')
    if ordered(a) and ordered(b) and decided(f, cd.lt(a, b)) is False and decided(f, cd.lt(b, a)) is False:
      return Res(EQ)
    sl = {}
    for t in closed_slices(a) | closed_slices(b):
      w = self.resolve_slice(t, f)
      if w is not None and w is not t:
        sl[t] = w
    if sl:
      return self.cmp(tm.replace_terms(a, sl), tm.replace_terms(b, sl), f, rel)
    c = nested_cond(a)
    if c is None:
      c = nested_cond(b)
    if c is not None:
      c = pick_atom(c)
      if f.query(c) is None:
        return self.split(c, a, b, f, (2, 2) if ns and nc else (0, 0), lambda ff, rr: self.cmp(a, b, ff, rr))
    m = minmax_in(a) or minmax_in(b)
    if m is not None:
      x, y = m.args[0]
      c = cd.lt(y, x)
      v = decided(f, c)

      def chosen(ff):
        big = decided(ff, c)
        w = x if big == (m.op == 'max') else y
        return self.cmp(tm.replace_terms(a, {m: w}), tm.replace_terms(b, {m: w}), ff, (2, 2) if ns and nc else (0, 0))
      if v is not None:
        return chosen(f)
      rs = []
      for ff in (f.assume(c, True), f.assume(c, False)):
        if ff is not None and decided(ff, c) is not None:
          rs.append(chosen(ff))
      if rs:
        return self.join(rs)
    msg = '%s: expected %s, found %s%s' % (why or 'value', clip(a), clip(b), self.path(f))
    ka, kb = kind_of(a), kind_of(b)
    if ka and kb and ka != kb and 'raise' in (a.op, b.op) and ('fix' in ops_of(a) or 'fix' in ops_of(b)):
      return Res(UNK, 'a recursive function may raise; ' + msg)
    if ka and kb and ka != kb and not (ns and nc):
      return Res(DIFF, msg)
    if not (ns and nc) and any(x is NONE and cd.type_of(y) == cd.STR and y.op not in ('sym', 'attr', 'item', 'call') for x, y in ((a, b), (b, a))):
      return Res(DIFF, msg)
    if any(x.op in ('top', 'undef') for x in (a, b)) or has_top(a) or has_top(b):
      return Res(UNK, msg)
    if a.op == 'ret' and b is ASSERTION and not nc:
      return Res(DIFF, msg)
    if not (ns and nc) and (changed_copy(a, b) or changed_copy(b, a)):
      return Res(DIFF, msg)
    if not (ns and nc) and (self.varies(a, b, f, True) or self.varies(b, a, f, False)):
      return Res(DIFF, msg)
    if not (self.rigid(a, 's') and self.rigid(b, 'c')) or any(x.op == 'str' and tm.is_num(x.args[0]) for x in (a, b)):
      return Res(UNK, 'undecided ' + msg)
    if ns and nc:
      return Res(UNK, 'possibly equivalent conditions; ' + msg)
    return Res(DIFF, msg)

  def resolve_slice(self, t, f):
    """The slice t where the facts place its ends beyond the sequence."""
    base, lo, hi = t.args[:3]
    n = cd.length(base)
    if hi is not NONE and decided(f, cd.lt(hi, n)) is False:
      return so.mk_slice(base, lo, NONE)
    if lo is not NONE and decided(f, cd.lt(lo, n)) is False and cd.type_of(base) == cd.STR:
      return const('')
    return None

  def varies(self, t, c, f, spec):
    """t, a loop's result, takes a value other than the constant c."""
    if c.op != 'const':
      return False
    if t.op == 'sum':
      # counts something, found nothing
      b = t.args[2]
      return spec and c is ZERO and t.args[0].op == 'len' and t.args[1] is FALSE and f.query(cd.eq0(t.args[0])) is not True and count_body(b)
    if t.op == 'strl':
      count, init, keep = t.args[0], const(''), t.args[2] is const('')
    elif t.op == 'out' and t.args[0].op == 'loop' and isinstance(t.args[1], int) and t.args[1] < len(t.args[0].args[1]):
      lp, k = t.args[:2]
      count, init = lp.args[0], lp.args[1][k]
      b = lp.args[2]
      if b.op != 'body' or k >= len(b.args[0]):
        return False
      x = b.args[0][k]
      keep = x.op in ('b', 'bv', 'lv')
    else:
      return False
    if init.op != 'const':
      return False
    if init is not c and kind_of(init) == kind_of(c):
      # the loop may run no iteration at all
      return count is not INF and f.assume(cd.eq0(count)) is not None and count.op == 'len'
    return spec and init is c and not keep and count is not INF and count.op == 'len' and f.query(cd.eq0(count)) is not True

  def path(self, f):
    if not f.atoms:
      return ''
    parts = []
    for a, v in f.atoms[-8:]:
      parts.append(('' if v else 'not ') + clip(a, 90))
    return ' [when ' + ' and '.join(parts) + ']'

  def join(self, rs):
    worst = R_EQ
    for r in rs:
      if r.v == DIFF:
        return r
      if r.v > worst.v:
        worst = r
    return worst

  # -------------------------------------------------------------------- main
  def cmp(self, a, b, f, rel):
    self.steps += 1
    if self.steps > self.budget:
      return Res(UNK, 'comparison budget')
    if a is b:
      self.leaves += 1
      return R_EQ
    a, b = f.simp(a), f.simp(b)
    if a is b:
      self.leaves += 1
      return R_EQ
    key = (a, b, f.atoms, rel)
    if key in self.memo:
      return self.memo[key]
    r = self.cmp_(a, b, f, rel)
    self.memo[key] = r
    return r

  def split(self, atom, a, b, f, rel, k):
    """Case split on atom; k(f2, rel2) compares under each case."""
    self.cases += 1
    ns, nc = rel
    if has_top(atom):
      # unknown on one side: different only if it differs either way
      out = [k(ff, rel) for ff in (f.assume(atom, True), f.assume(atom, False)) if ff is not None]
      if out and all(r.v == DIFF for r in out):
        return out[0]
      return self.join([Res(UNK, r.msg) if r.v == DIFF else r for r in out])
    ina, inb = atom in atoms_of(a) or atom in self.known[0], atom in atoms_of(b) or atom in self.known[1]
    if not (ina and inb):
      op = self.opaque_atom(atom) and not self.counterpart(atom, a, b, f)
      if inb and atom.op in ('gt0', 'eq0') and any(x.op == 'len' and x.args[0].op == 'slice' for x in tm.children_of_poly(atom.args[0])):
        ns = nc = 2   # how long a slice is depends on where its ends lie
      if ina and not inb:
        ns = max(ns, 2 if op else 1)
      elif inb and not ina:
        nc = max(nc, 2 if op else 1)
    # only a pair of one-sided atoms, one of them opaque, is inconclusive
    out = []
    f1 = f.assume(atom, True)
    f2 = f.assume(atom, False)
    sl = {t: w for t in closed_slices(atom) for w in (self.resolve_slice(t, f),) if w is not None and w is not t}
    if sl:
      # the same condition, with slices that reach beyond the end written out
      same = tm.replace_terms(atom, sl)
      f1 = f1.assume(same, True) if f1 is not None else None
      f2 = f2.assume(same, False) if f2 is not None else None
    for ff in (f1, f2):
      if ff is not None:
        r = k(ff, (ns, nc))
        out.append(r)
        if r.v == DIFF:
          return r
    return self.join(out)

  def counterpart(self, atom, a, b, f):
    """The only predicate of this kind on the other side, known to be a different one."""
    A = [x for x in atoms_of(a) - atoms_of(b) if x.op == atom.op]
    B = [x for x in atoms_of(b) - atoms_of(a) if x.op == atom.op]
    if len(A) != 1 or len(B) != 1:
      return False
    x, y = A[0], B[0]
    k = (x, y)
    if k not in self.atompairs:
      self.atompairs[k] = False
      if x.op in ('isc', 'truthy', 'eq0', 'gt0', 'in', 'isinst') and len(x.args) == len(y.args):
        rs = []
        for u, v in zip(x.args, y.args):
          if isinstance(u, T) and isinstance(v, T):
            rs.append(self.cmp(u, v, cd.Facts(), (0, 0)))
          elif u != v:
            rs.append(Res(UNK))
        self.atompairs[k] = any(r.v == DIFF for r in rs) and not any(r.v == UNK for r in rs)
    return self.atompairs[k]

  def incon(self, rel):
    ns, nc = rel
    return ns and nc and (ns == 2 or nc == 2)

  def cmp_(self, a, b, f, rel):
    for t, o in ((a, b), (b, a)):
      if t.op == 'ite':
        at = pick_atom(t)
        return self.split(at, a, b, f, rel, lambda ff, rr: self.cmp(a, b, ff, rr))
    if a in (TRUE, FALSE) and b.op not in cd._BOOL_OPS and cd.type_of(b) == cd.BOOL:
      b = cd.truth(b)
    elif b in (TRUE, FALSE) and a.op not in cd._BOOL_OPS and cd.type_of(a) == cd.BOOL:
      a = cd.truth(a)
    ba, bb = a.op in cd._BOOL_OPS, b.op in cd._BOOL_OPS
    if ba or bb:
      # predicates of the same shape: compare their operands
      if ba and bb and a.op == b.op == 'truthy':
        x, y = a.args[0], b.args[0]
        if x.op == y.op and x.op in ('exists', 'call', 'meth', 'out'):
          r = self.cmp(x, y, f, rel)
          if r.v == EQ:
            return r
          if x.op == 'exists':
            return r
      if (ba or a in (TRUE, FALSE)) and (bb or b in (TRUE, FALSE)):
        at = a if ba else b
        return self.split(at, a, b, f, rel, lambda ff, rr: self.cmp(a, b, ff, rr))
      return self.mism(a, b, self.rel2(rel), f)
    op = a.op
    if op == 'raise' and a.args[0].op == 'exc' and a.args[0].args[0] == 'AssertionError':
      return R_EQ   # outside the contract
    if op == 'top' or b.op == 'top' or op == 'undef' or b.op == 'undef':
      return Res(UNK, 'unmodelled value %s / %s' % (clip(a), clip(b)))
    # containers
    if op == 'lst' or b.op == 'lst':
      sa, sb = as_segs(a), as_segs(b)
      if sa is not None and sb is not None:
        return self.cmp_segs(sa, sb, f, rel)
      return self.mism(a, b, self.rel2(rel), f)
    if op in ('dct', 'set') and b.op == op:
      return self.cmp_multi(a.args[0], b.args[0], f, rel) if op == 'set' else self.cmp_dct(a, b, f, rel)
    if op == 'cat' or b.op == 'cat':
      if cd.type_of(a) == cd.STR or op == 'cat':
        return self.cmp_cat(a, b, f, rel)
    if op == 'poly' or b.op == 'poly':
      return self.cmp_poly(a, b, f, rel)
    if (op == 'lam') != (b.op == 'lam'):
      l, o = (a, b) if op == 'lam' else (b, a)
      if cd.type_of(o) in (None,) or cd.type_of(o)[0] == 'callable':
        vs = [tm.fresh('p') for _ in range(l.args[0])]
        x, y = tm.open_(l.args[1], vs), T('call', o, tuple(vs), ())
        if cd.type_of(x) == cd.BOOL or x.op in cd._BOOL_OPS or x in (TRUE, FALSE):
          y = cd.truth(y)
        return self.cmp(x, y, f, rel) if l is a else self.cmp(y, x, f, rel)
    if op == b.op:
      m = getattr(self, 'c_' + op, None)
      if m is not None:
        return m(a, b, f, rel)
    else:
      # numbers may be equal under the linear facts
      if cd.type_of(a) in (cd.INT, cd.FLOAT) and cd.type_of(b) in (cd.INT, cd.FLOAT):
        return self.cmp_poly(a, b, f, rel)
    return self.mism(a, b, self.rel2(rel), f)

  def rel2(self, rel):
    return (1, 1) if self.incon(rel) else (0, 0)

  # ---------------------------------------------------------------- per-op
  def c_setcell(self, a, b, f, rel):
    if len(a.args) != len(b.args) or a.args[0] is not b.args[0]:
      return self.mism(a, b, self.rel2(rel), f)
    rs = []
    for x, y in zip(a.args[1:], b.args[1:]):
      if not isinstance(x, T) or not isinstance(y, T):
        rs.append(R_EQ if x == y else Res(UNK, 'cell'))
        continue
      r = self.cmp(x, y, f, rel)
      if r.v == DIFF and x.op == 'rec' and y.op == 'rec':
        # the object may still change after being stored
        r = Res(UNK, r.msg)
      rs.append(r)
    return self.join(rs)

  def c_const(self, a, b, f, rel):
    return self.mism(a, b, self.rel2(rel), f)

  def fields(self, fa, fb, f, rel):
    da, db = dict(fa), dict(fb)
    if set(da) != set(db):
      return Res(UNK, 'different field sets')
    return self.join([self.cmp(da[k], db[k], f, rel) for k in da])

  def c_rec(self, a, b, f, rel):
    if a.args[0] in ('loop', 'step') and b.args[0] == a.args[0]:
      fa, fb = dict(a.args[1]), dict(b.args[1])
      if a.args[0] == 'step' and fa['signal'] is not fb['signal']:
        return self.mism(fa['signal'], fb['signal'], self.rel2(rel), f, 'loop control')
      if sorted(fa) != sorted(fb):
        return Res(UNK, 'loop carries other variables: %s' % sorted(set(fa) ^ set(fb)))
      if a.args[0] == 'loop':
        rs = {k: self.cmp_aligned(fa[k], fb[k], self.given(f, self.in_step) if k == 'step' else f, rel) for k in fa}
        gen = rs.pop('generic', None)
        if 'iterable' in rs and rs['iterable'].v != EQ and rs['step'].v == EQ and all(isinstance(n, T) for n in self.counts):
          # as many steps, and the same one at every index
          r = self.cmp(self.counts[0], self.counts[1], f, rel)
          if r.v != DIFF:
            rs['iterable'] = r
        if gen is not None and gen.v == EQ and DIFF in (rs['iterable'].v, rs['step'].v) and rs['iterable'].v != EQ and all(
            v.v == EQ for k, v in rs.items() if k.startswith('initially')):
          return Res(DIFF, 'the loop goes over something else; ' + (rs['iterable'] if rs['iterable'].v == DIFF else rs['step']).msg)
        if 'iterable' in rs and rs['iterable'].v == DIFF and 'call' in (fa['iterable'].op, fb['iterable'].op):
          # the rest, given what is iterated over
          it = tm.sym('$iterable', cd.type_of(fa['iterable']))
          for k in rs:
            if k != 'iterable' and rs[k].v != EQ:
              rs[k] = self.cmp_aligned(tm.replace_terms(fa[k], {fa['iterable']: it}), tm.replace_terms(fb[k], {fb['iterable']: it}), f, rel)
        r = self.join(list(rs.values()))
        off = {('initial' if k.startswith('initially') else k) for k in rs if rs[k].v != EQ}
        if r.v == DIFF and len(off) > 1:
          return Res(UNK, 'loop over different state; ' + r.msg)
        if r.v == DIFF and off == {'iterable'}:
          return Res(DIFF, 'the loop goes over something else; ' + r.msg)
        return r
    if a.args[0] != b.args[0]:
      return self.mism(a, b, self.rel2(rel), f, 'node kind')
    return self.fields(a.args[1], b.args[1], f, rel)

  def c_repl(self, a, b, f, rel):
    return self.join([self.cmp(a.args[0], b.args[0], f, rel), self.fields(a.args[1], b.args[1], f, rel)])

  def c_attr(self, a, b, f, rel):
    if a.args[1] != b.args[1]:
      return self.mism(a, b, self.rel2(rel), f)
    return self.cmp(a.args[0], b.args[0], f, rel)

  def c_item(self, a, b, f, rel):
    r = self.cmp(a.args[0], b.args[0], f, rel)
    if r.v != EQ:
      return r
    return self.cmp(a.args[1], b.args[1], f, rel)

  def c_slice(self, a, b, f, rel):
    return self.join([self.cmp(x, y, f, rel) for x, y in zip(a.args, b.args)])

  def c_call(self, a, b, f, rel):
    ha, hb = a.args[0], b.args[0]
    if ha is not hb:
      if ha.op == 'fix' and hb.op == 'fix':
        r = self.cmp(ha, hb, f, rel)
        if r.v != EQ:
          if r.v == DIFF:
            ra = self.cargs(a.args[1], b.args[1], a.args[2], b.args[2], a, b, f, rel)
            if ra.v != EQ:
              return Res(UNK, 'recursion over different state; ' + r.msg)
          return r
      elif ha.op == hb.op and ha.op not in ('func', 'bi', 'ext', 'cls', 'fix', 'self'):
        r = self.cmp(ha, hb, f, rel)
        if r.v != EQ:
          return r
      else:
        return self.mism(a, b, self.rel2(rel), f, 'call')
    return self.cargs(a.args[1], b.args[1], a.args[2], b.args[2], a, b, f, rel)

  def cargs(self, xa, xb, ka, kb, a, b, f, rel):
    if a.op == 'call' and a.args[0].op == 'ext' and [k for k, _ in ka] != [k for k, _ in kb] and len(xa) == len(xb):
      d = EXT_DEFAULTS.get(a.args[0].args[0], {})
      ka, kb = (tuple(sorted(({k: tm.const(v) for k, v in d.items()} | dict(x)).items())) for x in (ka, kb))
    if len(xa) != len(xb) or [k for k, _ in ka] != [k for k, _ in kb]:
      r = self.mism(a, b, self.rel2(rel), f, 'arguments')
      ext = a.op != 'call' or a.args[0].op in ('ext', 'bi', 'cls')
      # an omitted argument may be a default, a keyword may be positional
      return Res(UNK, r.msg) if r.v == DIFF and ext and (ka or kb or a.op == 'call') else r
    rs = [self.cmp(x, y, f, rel) for x, y in zip(xa, xb)]
    rs += [self.cmp(x, y, f, rel) for (_, x), (_, y) in zip(ka, kb)]
    return self.join(rs)

  def c_meth(self, a, b, f, rel):
    if a.args[0] != b.args[0]:
      return self.mism(a, b, self.rel2(rel), f, 'operation')
    r = self.cmp(a.args[1], b.args[1], f, rel)
    return self.join([r, self.cargs(a.args[2], b.args[2], a.args[3], b.args[3], a, b, f, rel)])

  def c_ev(self, a, b, f, rel):
    if a.args[0] != b.args[0]:
      return self.mism(a, b, self.rel2(rel), f, 'effect')
    return self.cargs(a.args[1], b.args[1], a.args[2], b.args[2], a, b, f, rel)

  def c_emit(self, a, b, f, rel):
    if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]):
      return self.mism(a, b, self.rel2(rel), f, 'effect')
    return self.join([self.cmp(x, y, f, rel) for x, y in zip(a.args[1], b.args[1])])

  def c_ret(self, a, b, f, rel):
    return self.join([self.cmp(a.args[0], b.args[0], f, rel), self.c_post(a.args[1], b.args[1], f, rel)])

  def c_post(self, a, b, f, rel):
    da, db = dict(a.args[0]), dict(b.args[0])
    rs = []
    for k in sorted(set(da) | set(db), key=tm.show):
      kind, cell = k.args
      dflt = cell if kind in ('a', 'c') else tm.lst(())
      x, y = da.get(k, dflt), db.get(k, dflt)
      if kind == 'em' or (kind == 'ev' and 'ev' in self.unordered):
        rs.append(self.cmp_multi(as_segs(x), as_segs(y), f, rel))
      else:
        rs.append(self.cmp(x, y, f, rel))
    return self.join(rs)

  def c_raise(self, a, b, f, rel):
    return self.mism(a, b, self.rel2(rel), f, 'exception')

  def c_res(self, a, b, f, rel):
    if len(a.args[1]) != len(b.args[1]):
      return Res(UNK, 'recursive summary shape')
    rs = [self.cmp(a.args[0], b.args[0], f, rel)]
    rs += [self.cmp(x, y, f, rel) for x, y in zip(a.args[1], b.args[1])]
    return self.join(rs)

  def c_out(self, a, b, f, rel):
    r = self.cmp(a.args[0], b.args[0], f, rel)
    if r.v != EQ:
      return r
    if a.args[1] != b.args[1]:
      if isinstance(a.args[1], int) != isinstance(b.args[1], int):
        return Res(UNK, 'loop outputs')
      return Res(DIFF, 'a different loop result is used: %s / %s%s' % (a.args[1], b.args[1], self.path(f)))
    return R_EQ

  def c_fix(self, a, b, f, rel):
    r = self.cmp(a.args[0], b.args[0], f, rel)
    if r.v == DIFF and (a.args[1] or b.args[1]):
      return Res(UNK, 'summarised state may be ordered differently; ' + r.msg)
    return r

  def c_lam(self, a, b, f, rel):
    if a.args[0] != b.args[0]:
      return Res(UNK, 'arity of a local function')
    vs = [tm.fresh('p') for _ in range(a.args[0])]
    x, y = tm.open_(a.args[1], vs), tm.open_(b.args[1], vs)
    return self.cmp_aligned(x, y, f, rel)

  def bind(self, count, f):
    i = tm.fresh('i', cd.INT)
    g = f.assume(cd.gt0(tm.add(i, ONE)))
    if count is not INF and g is not None:
      g2 = g.assume(cd.gt0(tm.sub(count, i)))
      g = g2 if g2 is not None else g
    return i, g or f

  def binder2(self, a, b, f, rel, sub):
    """(count, exit, body) binders."""
    r = self.cmp(a.args[0], b.args[0], f, rel)
    if r.v != EQ:
      return r
    i, g = self.bind(a.args[0], f)
    re = self.cmp(tm.open_(a.args[1], [i]), tm.open_(b.args[1], [i]), g, rel)
    x, y = tm.open_(a.args[2], [i]), tm.open_(b.args[2], [i])
    if isinstance(x, tuple):
      rb = self.cmp_aligned(T('lst', x), T('lst', y), g, rel, lambda w: sub(x, w.args[0] if w.op == 'lst' else y, g))
    else:
      rb = self.cmp_aligned(x, y, g, rel, lambda w: sub(x, w, g))
    return self.join([re, rb])

  def c_sum(self, a, b, f, rel):
    return self.binder2(a, b, f, rel, lambda x, y, g: self.cmp(x, y, g, rel))

  c_strl = c_sum
  c_exists = c_sum

  def c_L(self, a, b, f, rel, multi=False):
    return self.binder2(a, b, f, rel, lambda x, y, g: (self.cmp_multi if multi else self.cmp_segs)(x, y, g, rel))

  def c_first(self, a, b, f, rel):
    return self.join([self.cmp(x, y, f, rel) for x, y in zip(a.args, b.args)])

  def c_loop(self, a, b, f, rel):
    r = self.cmp(a.args[0], b.args[0], f, rel)
    if r.v != EQ:
      return r
    if len(a.args[1]) != len(b.args[1]):
      return Res(UNK, 'different loop-carried state')
    n = len(a.args[1])
    i, g = self.bind(a.args[0], f)
    vs = [i]
    for x in a.args[1]:
      vs.append(tm.fresh('c', cd.type_of(x)))
    ri = self.join([self.cmp(x, y, f, rel) for x, y in zip(a.args[1], b.args[1])])
    ba, bb = tm.open_(a.args[2], vs), tm.open_(b.args[2], vs)
    rb = self.cmp_aligned(ba, bb, g, rel)
    r = self.join([ri, rb])
    if r.v == DIFF and ri.v != EQ and rb.v != EQ:
      r = Res(UNK, 'loop over different state; ' + r.msg)
    if r.v != EQ and n > 1:
      # another pairing of the carried cells?
      import itertools
      if n <= 4:
        for perm in itertools.permutations(range(n)):
          if perm == tuple(range(n)):
            continue
          inits = [b.args[1][p] for p in perm]
          vs2 = [i] + [None] * n
          for j, p in enumerate(perm):
            vs2[p + 1] = vs[j + 1]
          bb2 = tm.open_(b.args[2], vs2)
          bb2 = T('body', tuple(bb2.args[0][p] for p in perm), *bb2.args[1:])
          rs = [self.cmp(x, y, f, rel) for x, y in zip(a.args[1], inits)]
          rs.append(self.cmp(ba, bb2, g, rel))
          if self.join(rs).v == EQ:
            return Res(UNK, 'loop-carried state in another order')
    return r

  def c_body(self, a, b, f, rel):
    if len(a.args[0]) != len(b.args[0]) or len(a.args[2]) != len(b.args[2]) or len(a.args[3]) != len(b.args[3]):
      return Res(UNK, 'loop shape')
    rs = [self.cmp(a.args[1], b.args[1], f, rel)]
    f2 = f.assume(a.args[1], False) or f
    for x, y in zip(a.args[0], b.args[0]):
      rs.append(self.cmp(x, y, f, rel))
    for x, y in zip(a.args[2], b.args[2]):
      rs.append(self.cmp(x.args[0], y.args[0], f, rel))
      g = f.assume(x.args[0])
      if g is not None:
        rs.append(self.cmp(x.args[1], y.args[1], g, rel))
    for x, y in zip(a.args[3], b.args[3]):
      rs.append(self.cmp(x.args[0], y.args[0], f, rel))
    return self.join(rs)

  def c_emits(self, a, b, f, rel):
    if a.args[0] != b.args[0]:
      return Res(UNK, 'container kinds')
    return self.cmp(a.args[1], b.args[1], f, rel)

  def struct(self, a, b, f, rel):
    if len(a.args) != len(b.args):
      return self.mism(a, b, self.rel2(rel), f)
    rs = []
    for x, y in zip(a.args, b.args):
      rs.append(self.any(x, y, a, b, f, rel))
    return self.join(rs)

  def any(self, x, y, a, b, f, rel):
    if isinstance(x, T) and isinstance(y, T):
      return self.cmp(x, y, f, rel)
    if isinstance(x, tuple) and isinstance(y, tuple):
      if len(x) != len(y):
        return self.mism(a, b, self.rel2(rel), f)
      return self.join([self.any(p, q, a, b, f, rel) for p, q in zip(x, y)])
    if x != y:
      return self.mism(a, b, self.rel2(rel), f)
    return R_EQ

  c_store = c_kv = c_fmt = c_str = c_rev = c_len = c_keys = c_iters = c_indout = c_set = struct
  def c_bin(self, a, b, f, rel):
    if a.args[0] != b.args[0] and {a.args[0], b.args[0]} <= _DISTINCT and a.args[1:] == b.args[1:] and not self.incon(rel):
      return Res(DIFF, 'operation: expected %s, found %s%s' % (clip(a), clip(b), self.path(f)))
    return self.struct(a, b, f, rel)

  c_lastof = c_strx = c_min = c_max = c_range = c_nat = c_mut = c_tup = c_in = struct
  c_print = c_copyof = c_enter = c_view = c_typeof = c_excflag = c_partial = c_setop = c_pairs = struct
  c_defaultdict = c_cell = struct

  # ------------------------------------------------------------- numbers/strings
  def cmp_poly(self, a, b, f, rel):
    d = tm.sub(a, b)
    if d is ZERO:
      return R_EQ
    at = cd.has_ite_atom(d)
    if at is not None:
      c = pick_atom(at)
      return self.split(c, a, b, f, rel, lambda ff, rr: self.cmp(a, b, ff, rr))
    q = f.query(cd.eq0(d)) if cd.eq0(d).op == 'eq0' else (True if cd.eq0(d) is TRUE else False if cd.eq0(d) is FALSE else None)
    if q is True:
      return R_EQ
    # pair up residual atoms
    res = tm.poly_dict(d)
    (m0, c0), = list(res.items())[:1] if len(res) == 1 else [((), 0)]
    if m0 and not has_top(d) and all(x.op == 'call' and x.args[0].op == 'ext' and p > 0 for x, p in m0) and m0 in tm.poly_dict(a) and not (rel[0] and rel[1]):
      return Res(DIFF, 'number: expected %s, found %s%s' % (clip(a), clip(b), self.path(f)))
    pos = [(m, c) for m, c in res.items() if m != () and c > 0]
    neg = [(m, c) for m, c in res.items() if m != () and c < 0]
    if len(pos) == 1 and len(neg) == 1 and pos[0][1] == -neg[0][1] and () not in res:
      mp, mn = dict(pos[0][0]), dict(neg[0][0])
      ra = [(x, p) for x, p in pos[0][0] if mn.get(x) != p]
      rb = [(x, p) for x, p in neg[0][0] if mp.get(x) != p]
      if len(ra) == 1 and len(rb) == 1 and ra[0][1] == rb[0][1] and ra[0][0].op == rb[0][0].op:
        if ra[0][0] is not a or rb[0][0] is not b:
          return self.cmp(ra[0][0], rb[0][0], f, rel)
        m = getattr(self, 'c_' + a.op, None)
        if m is not None:
          return m(a, b, f, rel)
    return self.mism(a, b, self.rel2(rel), f, 'number')

  def cmp_cat(self, a, b, f, rel):
    pa = list(a.args[0]) if a.op == 'cat' else [a]
    pb = list(b.args[0]) if b.op == 'cat' else [b]
    # strip common prefix / suffix
    for end in (0, -1):
      while pa and pb:
        x, y = pa[end], pb[end]
        if tm.is_str(x) and tm.is_str(y):
          s, t = x.args[1], y.args[1]
          if s == t:
            pa.pop(end), pb.pop(end)
            continue
          if end == 0:
            k = 0
            while k < min(len(s), len(t)) and s[k] == t[k]:
              k += 1
            s, t = s[k:], t[k:]
          else:
            k = 0
            while k < min(len(s), len(t)) and s[-1 - k] == t[-1 - k]:
              k += 1
            s, t = (s[:-k], t[:-k]) if k else (s, t)
          if k == 0:
            break
          if s:
            pa[end] = const(s)
          else:
            pa.pop(end)
          if t:
            pb[end] = const(t)
          else:
            pb.pop(end)
          if s and t:
            break
          continue
        if x.op == 'ite' or y.op == 'ite':
          c = pick_atom(x if x.op == 'ite' else y)
          na, nb = tm.cat(*pa), tm.cat(*pb)
          return self.split(c, na, nb, f, rel, lambda ff, rr: self.cmp(na, nb, ff, rr))
        if self.cmp(x, y, f, rel).v == EQ:
          pa.pop(end), pb.pop(end)
          continue
        break
    if not pa and not pb:
      return R_EQ
    for x in pa + pb:
      if x.op == 'ite':
        na, nb = tm.cat(*pa), tm.cat(*pb)
        return self.split(pick_atom(x), na, nb, f, rel, lambda ff, rr: self.cmp(na, nb, ff, rr))
    if len(pa) == 1 and len(pb) == 1 and not (pa[0] is a and pb[0] is b):
      return self.cmp(pa[0], pb[0], f, rel)
    if len(pa) == len(pb):
      rs = [self.cmp(x, y, f, rel) if not (x is a and y is b) else self.mism(x, y, self.rel2(rel), f) for x, y in zip(pa, pb)]
      if all(r.v != UNK for r in rs):
        return self.join(rs)
    return self.mism(tm.cat(*pa), tm.cat(*pb), self.rel2(rel), f, 'text')

  # --------------------------------------------------------------------- lists
  def cmp_segs(self, A, B, f, rel):
    A, B = list(simp_segs(A, f)), list(simp_segs(B, f))
    rs = []
    while A and B:
      x, y = A[0], B[0]
      if x is y:
        A.pop(0), B.pop(0)
        continue
      if x.op == 'br' and y.op == 'br' and x.args[0] is y.args[0]:
        c = pick_atom(x.args[0])
        fa, fb = f.assume(x.args[0], True), f.assume(x.args[0], False)
        r1 = self.cmp_segs(x.args[1], y.args[1], fa, rel) if fa is not None else R_EQ
        r2 = self.cmp_segs(x.args[2], y.args[2], fb, rel) if fb is not None else R_EQ
        if r1.v == EQ and r2.v == EQ:
          A.pop(0), B.pop(0)
          continue
      if x.op == 'br' or y.op == 'br':
        c = pick_atom((x if x.op == 'br' else y).args[0])
        ta, tb = T('lst', tuple(A)), T('lst', tuple(B))
        return self.split(c, ta, tb, f, rel, lambda ff, rr: self.cmp_segs(A, B, ff, rr))
      if x.op == y.op:
        r = self.c_L(x, y, f, rel) if x.op == 'L' else self.cmp(x.args[0], y.args[0], f, rel)
        if r.v == EQ:
          A.pop(0), B.pop(0)
          continue
        if x.op == 'e':
          # same position, different element
          if A[-1] is B[-1] or len(A) == len(B) or r.v == DIFF:
            if r.v == DIFF:
              return r
            rs.append(r)
            A.pop(0), B.pop(0)
            continue
        if x.op in ('x', 'L'):
          if r.v == DIFF and [seg_op(s) for s in A] == [seg_op(s) for s in B]:
            return r
          # try from the other end
          if len(A) > 1 and len(B) > 1:
            pass
        return self.lists_differ(A, B, f, rel, 'list structure: ' + r.msg)
      # an empty splice / loop under the facts?
      if x.op in ('x', 'L') or y.op in ('x', 'L'):
        s = x if x.op in ('x', 'L') else y
        n = cd.length(s.args[0]) if s.op == 'x' else s.args[0]
        if n is not INF:
          c = f.simp(cd.gt0(n))
          if c is FALSE:
            (A if s is x else B).pop(0)
            continue
      if {x.op, y.op} == {'e', 'x'}:
        va, vb = x.args[0], y.args[0]
        s, L_ = (x, A) if x.op == 'x' else (y, B)
        if s.args[0].op == 'slice':
          v, lo, hi, _ = s.args[0].args
          last = tm.sub(cd.length(v), ONE)
          if hi is NONE and lo is last and f.query(cd.gt0(cd.length(v))) is True:
            L_[0] = T('e', so.mk_item(v, lo))
            continue
          if hi is not NONE and lo is not NONE and tm.sub(hi, lo) is ONE and f.query(cd.gt0(tm.sub(cd.length(v), lo))) is True:
            L_[0] = T('e', so.mk_item(v, lo))
            continue
          return self.lists_differ(A, B, f, rel, 'element vs slice')
        if simple(va) and simple(vb):
          return self.mism(va, vb, self.rel2(rel), f, 'element vs splice')
      if {x.op, y.op} == {'e', 'L'} and not self.incon(rel):
        e, l = (x, y) if x.op == 'e' else (y, x)
        if e.args[0].op in ('rec', 'lst') and isinstance(l.args[2], tuple) and only_calls(l.args[2]) and not has_top(e) and not has_top(l):
          return Res(DIFF, 'an element of its own instead of the results of further calls: %s / %s%s' % (clip(x), clip(y), self.path(f)))
      return self.lists_differ(A, B, f, rel, 'list structure %s / %s' % (clip(x), clip(y)))
    rest, side = (A, 'missing') if A else (B, 'extra')
    if rest:
      r = self.leftover(rest, side, f, rel)
      rs.append(r)
    return self.join(rs)

  def lists_differ(self, A, B, f, rel, msg):
    """Undecided from the left: try the right end, then the lengths."""
    A, B = list(A), list(B)
    while A and B and A[-1].op == B[-1].op and A[-1].op != 'br':
      x, y = A[-1], B[-1]
      if x is not y:
        r = self.c_L(x, y, f, rel) if x.op == 'L' else self.cmp(x.args[0], y.args[0], f, rel)
        if r.v == DIFF and x.op == 'e':
          return r
        if r.v != EQ:
          break
      A.pop(), B.pop()
    if not A and not B:
      return R_EQ
    if not A or not B:
      return self.leftover(A or B, 'missing' if A else 'extra', f, rel)
    if not self.incon(rel) and not any(has_top(s) for s in A + B):
      if reorders(A) and ('bi', 'sorted') not in self.vc or reorders(B) and ('bi', 'sorted') not in self.vs:
        return Res(DIFF, 'order of elements (sorted on one side only); %s%s' % (msg, self.path(f)))
      d = f.simp(tm.sub(cd.length(T('lst', tuple(A))), cd.length(T('lst', tuple(B)))))
      for x in slices_in(d):
        g = f.assume(cd.gt0(cd.length(x.args[0])), True)   # a case of its own in which all but the last element exist
        if g is not None and x.args[1] in (NONE, ZERO) and g.query(cd.gt0(tm.sub(x.args[2], cd.length(x.args[0])))) is False:
          f = g
          d = g.simp(tm.sub(tm.add(d, x.args[2]), T('len', x)))
      if tm.is_num(d) and tm.num(d) != 0:
        return Res(DIFF, 'lists of different length (%+d expected); %s%s' % (tm.num(d), msg, self.path(f)))
      if not tm.is_num(d) and cd.has_ite_atom(d) is None and self.rigid(d, 's') and self.rigid(d, 'c'):
        q = f.query(cd.eq0(d)) if cd.eq0(d).op == 'eq0' else None
        if q is False or q is None and f.assume(cd.eq0(d), False) is not None and not rel[0] and not rel[1]:
          return Res(DIFF, 'lists of different length (by %s); %s%s' % (clip(d), msg, self.path(f)))
    return Res(UNK, msg)

  def leftover(self, rest, side, f, rel):
    """Segments present on one side only."""
    for s in rest:
      if s.op == 'e':
        if has_top(s):
          return Res(UNK, 'unmodelled element')
        if self.incon(rel):
          return Res(UNK, 'possibly equivalent conditions')
        return Res(DIFF, '%s element %s%s' % (side, clip(s), self.path(f)))
    s = rest[0]
    if s.op == 'br':
      c = pick_atom(s.args[0])
      t = T('lst', tuple(rest))
      e = T('lst', ())
      a, b = (t, e) if side == 'missing' else (e, t)
      return self.split(c, a, b, f, rel, lambda ff, rr: self.cmp_segs(a.args[0], b.args[0], ff, rr))
    n = cd.length(s.args[0]) if s.op == 'x' else s.args[0]
    if n is not INF and f.simp(cd.gt0(n)) is FALSE:
      return self.leftover(rest[1:], side, f, rel) if rest[1:] else R_EQ
    if s.op == 'x':
      if self.rigid(s, 's' if side == 'missing' else 'c') and not self.incon(rel) and not has_top(s):
        return Res(DIFF, '%s elements %s%s' % (side, clip(s), self.path(f)))
      if side == 'missing' and not self.incon(rel) and rel == (0, 0) and not has_top(s):
        return Res(DIFF, '%s elements %s%s' % (side, clip(s), self.path(f)))
      return Res(UNK, '%s elements %s' % (side, clip(s)))
    if s.op == 'L':
      i, g = self.bind(n, f)
      inner = tm.open_(s.args[2], [i])
      return self.leftover(list(simp_segs(inner, g)), side, g, rel) if inner else R_EQ
    return Res(UNK, 'segment ' + s.op)

  def cmp_dct(self, a, b, f, rel):
    sa, sb = tuple(simp_segs(a.args[0], f)), tuple(simp_segs(b.args[0], f))
    if all(s.op == 'e' for s in sa) and all(s.op == 'e' for s in sb):
      ka = {s.args[0].args[0]: s.args[0].args[1] for s in sa}
      kb = {s.args[0].args[0]: s.args[0].args[1] for s in sb}
      if all(cd.is_constlike(k) or tm.is_num(k) for k in list(ka) + list(kb)):
        if set(ka) != set(kb):
          d = sorted(set(ka) ^ set(kb), key=tm.show)
          return self.mism(a, b, self.rel2(rel), f, 'keys %s' % clip(d[0]))
        return self.join([self.cmp(ka[k], kb[k], f, rel) for k in ka])
    r = self.cmp_segs(sa, sb, f, rel)
    if r.v == DIFF and not all(s.op == 'e' and cd.is_constlike(s.args[0].args[0]) for x in (sa, sb) if len(x) > 1 for s in x):
      for x in (sa, sb):
        ks = list(seg_keys(x))
        if any(cd.is_constlike(k) for k in ks) and not all(cd.is_constlike(k) for k in ks):
          return Res(UNK, 'keys that may coincide')   # a later entry may replace an earlier one
    return r

  def cmp_multi(self, A, B, f, rel):
    """Order-insensitive comparison of emitted events."""
    A, B = merge_loops(simp_segs(A, f)), merge_loops(simp_segs(B, f))
    A0, B0 = list(A), list(B)
    same = {}
    for x in list(A):
      if x in B:
        A.remove(x)
        B.remove(x)
        same[x] = x
    for x in list(A):
      for y in list(B):
        if x.op != y.op:
          continue
        if x.op == 'br' and x.args[0] is not y.args[0]:
          continue
        if x.op == 'br':
          fa, fb = f.assume(x.args[0], True), f.assume(x.args[0], False)
          r1 = self.cmp_multi(x.args[1], y.args[1], fa, rel) if fa is not None else R_EQ
          if r1.v != EQ:
            continue
          r = self.cmp_multi(x.args[2], y.args[2], fb, rel) if fb is not None else R_EQ
        elif x.op == 'L':
          if x.args[0] is not y.args[0] and self.cmp(x.args[0], y.args[0], f, rel).v != EQ:
            continue
          r = self.c_L(x, y, f, rel, multi=True)
        else:
          r = self.cmp(x.args[0], y.args[0], f, rel)
        if r.v == EQ:
          A.remove(x)
          B.remove(y)
          same[x] = y
          break
    if not A and not B:
      for i, x in enumerate(A0):
        for z in A0[i + 1:]:
          if B0.index(same[x]) > B0.index(same[z]) and in_order(x, z):
            return Res(DIFF, 'order: expected %s before %s%s' % (clip(x), clip(z), self.path(f)))
      return R_EQ
    for s in A + B:
      if s.op == 'br':
        c = pick_atom(s.args[0])
        ta, tb = T('lst', tuple(A)), T('lst', tuple(B))
        return self.split(c, ta, tb, f, rel, lambda ff, rr: self.cmp_multi(A, B, ff, rr))
    for s in list(A) + list(B):
      for e in tm.children(s):
        pass
    # conditions inside elements
    for s in A + B:
      if s.op == 'e':
        at = inner_ite(s)
        if at is not None and f.query(at) is not None:
          A2, B2 = ([T('e', f.simp(w.args[0])) if w.op == 'e' else w for w in X] for X in (A, B))
          if A2 != A or B2 != B:
            return self.cmp_multi(A2, B2, f, rel)
          at = None
        if at is not None:
          ta, tb = T('lst', tuple(A)), T('lst', tuple(B))
          return self.split(at, ta, tb, f, rel, lambda ff, rr: self.cmp_multi(A, B, ff, rr))
    ea, eb = [s for s in A if s.op == 'e'], [s for s in B if s.op == 'e']
    la, lb = [s for s in A if s.op == 'L'], [s for s in B if s.op == 'L']
    if len(la) == 1 and len(lb) == 1 and len(A) == 1 and len(B) == 1:
      return self.c_L(la[0], lb[0], f, rel, multi=True)
    if not la and not lb and not any(s.op == 'x' for s in A + B):
      if ea and eb:
        # report against the closest element
        best = None
        for x in ea:
          for y in eb:
            r = self.cmp(x.args[0], y.args[0], f, rel)
            if best is None or r.v > best.v:
              best = r if r.v != EQ else best
            if r.v == UNK:
              return r
        return best or Res(UNK, 'events')
      return self.leftover(ea or eb, 'missing' if ea else 'extra', f, rel)
    if not A or not B:
      return self.leftover(A or B, 'missing' if A else 'extra', f, rel)
    if la and lb and len(la) == len(lb) == len(A) == len(B):
      # pair loops with equal counts
      rs = []
      for x in la:
        m = [y for y in lb if y.args[0] is x.args[0]]
        if len(m) != 1:
          return Res(UNK, 'loop events')
        rs.append(self.c_L(x, m[0], f, rel, multi=True))
      return self.join(rs)
    return Res(UNK, 'events %s / %s' % (clip(T('lst', tuple(A))), clip(T('lst', tuple(B)))))


_ermemo = {}


def erase(t):
  """Drops inferred types of loop results (they depend on annotations)."""
  r = _ermemo.get(t)
  if r is None:
    if not t.args:
      r = t
    else:
      args = [tm._map_arg(a, erase) for a in t.args]
      if t.op == 'out' and len(args) == 3:
        args[2] = None
      r = tm.rebuild(t, args)
    _ermemo[t] = r
  return r


_ALIGN = {'loop', 'fix', 'sum', 'strl', 'exists', 'first'}


def _dangling(t, lvl, memo):
  k = (t, lvl)
  r = memo.get(k)
  if r is None:
    if t.op == 'db':
      r = t.args[0] >= lvl
    else:
      scope = tm.BINDERS.get(t.op) or ()
      r = False
      for i, x in enumerate(t.args):
        l2 = lvl + 1 if i in scope else lvl
        for c in _terms_in(x):
          if c._hasdb and _dangling(c, l2, memo):
            r = True
    memo[k] = r
  return r


def _terms_in(x):
  if isinstance(x, T):
    return (x,)
  if isinstance(x, tuple):
    out = []
    for y in x:
      out.extend(_terms_in(y))
    return out
  return ()


_loopmemo = {}
_dmemo = {}


def loopies(t):
  """Closed loop-like subterms."""
  r = _loopmemo.get(t)
  if r is None:
    s = set()
    for c in tm.children(t):
      s |= loopies(c)
    if (t.op in _ALIGN or (t.op == 'call' and t.args[0].op == 'fix')) and not _dangling(t, 0, _dmemo):
      s.add(t)
    r = frozenset(s)
    _loopmemo[t] = r
  return r


def inner_ite(s):
  """An ite condition atom inside an element (not under a binder)."""
  todo = [s]
  while todo:
    t = todo.pop()
    if t.op == 'ite':
      return pick_atom(t)
    if t.op in cd._BOOL_OPS or t.op in tm.BINDERS:
      continue
    todo.extend(tm.children(t))
  return None


def merge_loops(segs):
  out, seen = [], {}
  for s in segs:
    if s.op == 'L' and s.args[1] is FALSE:
      k = s.args[0]
      if k in seen:
        j = seen[k]
        out[j] = T('L', k, FALSE, out[j].args[2] + s.args[2])
        continue
      seen[k] = len(out)
    out.append(s)
  return out


def simp_segs(segs, f):
  out = []
  for s in segs:
    if s.op == 'br':
      c = f.simp(s.args[0])
      if c is TRUE:
        out.extend(simp_segs(s.args[1], f))
      elif c is FALSE:
        out.extend(simp_segs(s.args[2], f))
      else:
        out.append(T('br', c, tuple(s.args[1]), tuple(s.args[2])))
    elif s.op == 'x':
      v = f.simp(s.args[0])
      out.extend(tm.lst((T('x', v),)).args[0] if v is not s.args[0] else (s,))
    elif s.op == 'L' and s.args[0] is not INF:
      n = f.simp(s.args[0])
      if n is not s.args[0] and tm.is_num(n):
        out.extend(simp_segs(tm.lst((T('L', n, s.args[1], s.args[2]),)).args[0], f))
      else:
        out.append(s)
    else:
      out.append(s)
  return out


def ops_of(t, memo={}):
  r = memo.get(t)
  if r is None:
    r = frozenset((t.op,)).union(*[ops_of(c) for c in tm.children(t)])
    memo[t] = r
  return r


def in_order(x, z):
  """Whether x has to happen before z: an edge into a state is added before the edges out of it,
  and what is built below a state after the edge into it and before the edge out of its end."""
  def edge(e):
    e = e.args[0] if e.op == 'e' else None
    if e is None or e.op not in ('call', 'emit'):
      return None
    for a in e.args[1]:
      if a.op == 'rec' and a.args[0].endswith('Edge'):
        return dict(a.args[1])
    return None

  def below(state, call):
    if state.op != 'rec' or call.op != 'e' or call.args[0].op != 'call':
      return False
    fields = [v for n, v in state.args[1]]
    own = [v for v in fields[1:] if v.op not in ('num', 'const', 'enum') and not (v.op == 'call' or v.op == 'len')]
    return len(own) > 1 and all(v in call.args[0].args[1] for v in own)

  ex, ez = edge(x), edge(z)
  if ex and ez:
    return ex['dest'] is ez['source']
  if ex:
    s, d = ex['source'], ex['dest']
    if s.op == d.op == 'rec' and [v for _, v in s.args[1]][1:] == [v for _, v in d.args[1]][1:]:
      k = d.args[1][0][1]   # on to another kind of state at the same place
      return k.op == 'enum' and z.op == 'e' and z.args[0].op == 'call' and k in z.args[0].args[1]
    return below(d, z)
  if ez:
    return below(ez['source'], x)
  return False


def as_segs(t):
  if t.op == 'lst':
    return tuple(y for x in t.args[0] for y in tuple_items(x))
  if t.op == 'const':
    return None
  ty = cd.type_of(t)
  if ty is not None and ty[0] not in ('seq', 'tuple', 'union'):
    return None
  return tuple(tuple_items(T('x', t)))


def tuple_items(s):
  """A splice of a fixed-size tuple as its elements."""
  if s.op == 'x':
    ty = cd.type_of(s.args[0])
    if ty and ty[0] == 'tuple' and s.args[0].op != 'lst':
      return [T('e', so.mk_item(s.args[0], const(k))) for k in range(len(ty[1]))]
  return [s]


def kind_of(t):
  """Kind of value a term certainly denotes, if its constructor fixes it."""
  op = t.op
  if op == 'const':
    v = t.args[1]
    return 'none' if v is None else 'bool' if isinstance(v, bool) else 'num' if isinstance(v, (int, float)) else 'str' if isinstance(v, str) else None
  if op == 'rec':
    return ('rec', t.args[0])
  if op in ('lst', 'cat', 'ret', 'dct', 'set', 'strl', 'strx', 'fmt', 'str'):
    return {'cat': 'str', 'strl': 'str', 'strx': 'str', 'fmt': 'str'}.get(op, op)
  if op == 'enum':
    return 'num' if cd.is_intenum(cd.type_of(t)) else 'enum'
  if op == 'poly':
    return 'num'
  if op == 'meth' and t.args[0] in ('join', 'upper', 'lower', 'strip', 'lstrip', 'rstrip') and (tm.is_str(t.args[1]) or cd.type_of(t.args[1]) == cd.STR):
    return 'str'
  if op == 'out' and t.args[0].op == 'loop' and isinstance(t.args[1], int) and t.args[1] < len(t.args[0].args[1]):
    ty = cd.type_of(t)
    return 'num' if ty in (cd.INT, cd.FLOAT) else None
  if op == 'raise' and t.args[0].op == 'exc' and t.args[0].args[0] not in ('KeyError', 'IndexError', 'AttributeError', 'TypeError', 'StopIteration', 'AssertionError'):
    return ('raise', t.args[0].args[0])
  return None


def changed_copy(a, b):
  """a is b put through an operation that changes some values."""
  if a.op == 'meth' and a.args[0] in NONIDENTITY:
    return a.args[1] is b
  if a.op == 'call' and a.args[0].op in ('bi', 'ext') and a.args[0].args[0] in NONIDENTITY and a.args[1]:
    return a.args[1][0] is b
  return False


def slices_in(d):
  out = []
  for m in tm.poly_dict(d):
    for x, _ in (m if isinstance(m, tuple) else ()):
      if isinstance(x, T) and x.op == 'len' and x.args[0].op == 'slice':
        out.append(x.args[0])
  return out


def reorders(segs):
  return len(segs) == 1 and segs[0].op == 'x' and segs[0].args[0].op == 'call' and segs[0].args[0].args[0] is T('bi', 'sorted')


def simple(t):
  return t.op in ('sym', 'fv', 'attr', 'item', 'const', 'enum', 'slice', 'call', 'rec', 'meth', 'out')


_topmemo = {}


def has_top(t):
  r = _topmemo.get(t)
  if r is None:
    r = t.op in ('top', 'undef', 'ref', 'clo') or any(has_top(c) for c in tm.children(t))
    _topmemo[t] = r
  return r


def clip(t, n=160):
  s = tm.show(t)
  return s if len(s) <= n else s[:n] + '...'

"""Obligations that are not comparisons of function summaries."""
import ast
import re
from re import _parser as sre
from re import _constants as sc
from . import interp as ip
from . import terms as tm

SAMPLE = [chr(c) for c in range(0, 0x250)] + list('\u2028\u2029\u3000\u0391\u4e2d\U0001f600\ufeff')


def tree(p):
  """Canonical form of a parsed pattern: character classes as predicates, groups by content."""
  out = []
  for op, av in p:
    if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY, sc.CATEGORY):
      out.append(('class', chars(op, av)))
    elif op is sc.BRANCH:
      alts = [tree(x) for x in av[1]]
      if all(len(a) == 1 and a[0][0] == 'class' for a in alts):
        out.append(('class', frozenset().union(*[a[0][1] for a in alts])))
      else:
        out.append(('branch', tuple(alts)))
    elif op is sc.SUBPATTERN:
      g, add, drop, body = av
      if g is None and not add and not drop:
        out.extend(tree(body))
      else:
        out.append(('group', g, tree(body)))
    elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, 'POSSESSIVE_REPEAT', None)):
      lo, hi, body = av
      b = tree(body)
      if len(b) == 1 and b[0][0] == 'class' and out and out[-1] == b[0] and op is sc.MAX_REPEAT and hi == sc.MAXREPEAT:
        out.pop()        # aa* is a+
        lo += 1
      out.append((str(op), int(lo), int(hi), b))
    elif op in (sc.ASSERT, sc.ASSERT_NOT):
      out.append((str(op), av[0], tree(av[1])))
    else:
      out.append((str(op), str(av)))
  return tuple(out)


def chars(op, av):
  """Members of a one-character class among the sample characters."""
  if op is sc.LITERAL:
    return frozenset([chr(av)]) if chr(av) in SAMPLE else frozenset([chr(av)])
  if op is sc.NOT_LITERAL:
    return frozenset(c for c in SAMPLE if c != chr(av))
  if op is sc.ANY:
    return frozenset(SAMPLE)
  if op is sc.CATEGORY:
    return frozenset(c for c in SAMPLE if category(av, c))
  neg, res = False, set()
  for o, a in av:
    if o is sc.NEGATE:
      neg = True
    elif o is sc.RANGE:
      res |= {c for c in SAMPLE if a[0] <= ord(c) <= a[1]}
    else:
      res |= chars(o, a)
  return frozenset(set(SAMPLE) - res) if neg else frozenset(res)


def category(cat, c):
  n = str(cat)
  r = c.isspace() if 'SPACE' in n else c.isdecimal() if 'DIGIT' in n else (c.isalnum() or c == '_')
  return not r if '_NOT_' in n else r


def firsts(p):
  """Over-approximation of the characters a match of p can start with."""
  out = set()
  for op, av in p:
    if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY, sc.CATEGORY):
      return out | chars(op, av)
    if op is sc.BRANCH:
      for x in av[1]:
        out |= firsts(x)
      if min(x.getwidth()[0] for x in av[1]) > 0:
        return out
    elif op is sc.SUBPATTERN:
      out |= firsts(av[3])
      if av[3].getwidth()[0] > 0:
        return out
    elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
      out |= firsts(av[2])
      if av[0] > 0 and av[2].getwidth()[0] > 0:
        return out
    elif op in (sc.ASSERT, sc.ASSERT_NOT, sc.AT):
      continue
    else:
      return set(SAMPLE)
  return out


def recs(t, cls, seen=None):
  seen = set() if seen is None else seen
  if t in seen:
    return []
  seen.add(t)
  out = [t] if t.op == 'rec' and t.args[0] == cls else []
  for c in tm.children(t):
    out += recs(c, cls, seen)
  return out


class TokenRules:
  """The lexical rules of each preset language, read off the abstract value the preset constructor returns."""

  def __init__(self, code, languages, reference):
    self.code, self.languages, self.reference = code, languages, reference
    self.what = 'token rules of the preset languages'

  def run(self, R):
    res = {'code': self.code, 'spec': 'token rules', 'what': self.what, 'verdict': 'eq', 'msg': ''}
    fi = R.func(self.code)
    if fi is None:
      res.update(verdict='missing', msg='anchor not found')
      return res
    res.update(file=fi.module.path, line=fi.node.lineno, inlined=[self.code], cases=0, leaves=0)
    types = {n for n in enum_members(R, fi.module.name + ':TokenType')}
    for lang in self.languages:
      I = ip.Interp(R, opaque={fi.qual})
      t = I.summary(fi, {'cls': tm.T('cls', fi.cls.qual), 'language': tm.const(lang)})
      rs = recs(t, fi.cls.qual)
      spec = rs and dict(rs[0].args[1]).get('token_specification')
      rules = table(spec) if spec else None
      if rules is None:
        res.update(verdict='unk', msg='rules of %s are not constant' % lang)
        continue
      res['cases'] += len(rules)
      m = self.judge(lang, rules, types)
      if m:
        res.update(verdict='diff', msg='language %s: %s' % (lang, m))
        return res
    return res

  def judge(self, lang, rules, types):
    names = [n for n, _ in rules]
    if len(set(names)) != len(names):
      return 'a token type has two rules'
    for n in names:
      if types and n not in types:
        return 'rule %s has no token type' % n
    pat = '|'.join('(?P<%s>%s)' % r for r in rules)
    try:
      p = sre.parse(pat, re.DOTALL)
    except re.error as e:
      return 'the rules do not form a regular expression (%s)' % e
    first = set()
    parsed = []
    gs = 1
    for n, r in rules:
      # group numbers as in the whole expression
      q = sre.parse('(?:)' * 0 + '|'.join('(?P<%s>%s)' % x for x in rules[:rules.index((n, r)) + 1]), re.DOTALL)
      body = branches(q)[-1]
      parsed.append((n, body))
      if body.getwidth()[0] == 0:
        return 'rule %s can match the empty string, which skips characters' % n
      first |= firsts(body)
    gap = [c for c in SAMPLE if c not in first]
    if gap:
      return 'no rule matches %r, so that text is dropped' % gap[0]
    total = [n for n, b in parsed if len(tree(b)) == 1 and tree(strip_group(b)) == (('class', frozenset(SAMPLE)),)]
    if not total:
      singles = set()
      for n, b in parsed:
        tt = tree(strip_group(b))
        if len(tt) == 1 and tt[0][0] == 'class':
          singles |= tt[0][1]
        elif tt and tt[0][0] == 'MAX_REPEAT' and tt[0][1] <= 1 and len(tt) == 1 and tt[0][3] and tt[0][3][0][0] == 'class':
          singles |= tt[0][3][0][1]
      miss = [c for c in SAMPLE if c not in singles]
      if miss and self.reference.get(lang):
        return 'no rule is certain to match %r' % miss[0]
    ref = self.reference.get(lang)
    if ref:
      if [n for n, _ in ref] != names:
        return 'rules in order %s, expected %s' % (names, [n for n, _ in ref])
      for k, (n, r) in enumerate(ref):
        q = sre.parse('|'.join('(?P<%s>%s)' % x for x in ref[:k + 1]), re.DOTALL)
        if tree(branches(q)[-1]) != tree(parsed[k][1]):
          return 'rule %s is %r, expected %r' % (n, rules[k][1], r)
    return None


def strip_group(p):
  while len(p) == 1 and p[0][0] is sc.SUBPATTERN:
    p = p[0][1][3]
  return p


def branches(p):
  if len(p) == 1 and p[0][0] is sc.BRANCH:
    pre = p[0][1][1]
    return list(pre)
  return [p]


def table(spec):
  if spec.op != 'lst':
    return None
  out = []
  for s in spec.args[0]:
    if s.op != 'e':
      return None
    v = s.args[0]
    segs = v.args[0] if v.op == 'lst' else None
    if segs is None or len(segs) != 2 or not all(x.op == 'e' and tm.is_str(x.args[0]) for x in segs):
      return None
    out.append(tuple(x.args[0].args[1] for x in segs))
  return out


def enum_members(R, qual):
  mod, name = qual.split(':')
  import ast
  m = R.modules.get(mod) if hasattr(R, 'modules') else None
  tree_ = getattr(m, 'tree', None)
  if tree_ is None:
    return []
  for s in tree_.body:
    if isinstance(s, ast.ClassDef) and s.name == name:
      return [t.id for x in s.body if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)]
  return []


class GuardedLookups:
  """Error reports look up only keys that the guard of the report has established.

  In the true branch of `if k in d`, a lookup d[k2] inside a raise (or a call that raises) with k2 not among the tested keys would
  replace the intended exception by a KeyError.
  """

  def __init__(self, code, raisers=('safe_raise',)):
    self.code = code
    self.what = 'lookups in error reports'
    self.raisers = raisers

  def run(self, R):
    res = {'code': self.code, 'spec': 'guarded lookups', 'what': self.what, 'secs': 0, 'cases': 0, 'steps': 0, 'loops': 0, 'branches': 0, 'inlined': [self.code]}
    fi = R.func(self.code)
    if fi is None:
      return dict(res, verdict='missing', msg='anchor not found')
    alias = {}
    for n in ast.walk(fi.node):
      if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
        alias.setdefault(n.targets[0].id, []).append(n.value)
    params = {a.arg for n in ast.walk(fi.node) if isinstance(n, ast.arguments) for a in n.posonlyargs + n.args + n.kwonlyargs}
    one = {k: v[0] for k, v in alias.items() if len(v) == 1 and k not in params}

    def show(e, depth=0):
      if isinstance(e, ast.Name) and e.id in one and depth < 5:
        return show(one[e.id], depth + 1)
      if isinstance(e, ast.Attribute):
        return show(e.value, depth) + '.' + e.attr
      return ast.unparse(e)

    bad, seen = [], [0]

    def report(e, tested):
      for n in ast.walk(e):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
          seen[0] += 1
          keys = [k for k, d in tested if d == show(n.value)]
          if keys and show(n.slice) not in keys:
            bad.append((n, keys))

    def tests(t):
      if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
        return [x for v in t.values for x in tests(v)]
      if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.In):
        return [(show(t.left), show(t.comparators[0]))]
      return []

    def walk(stmts, tested):
      for s in stmts:
        if isinstance(s, ast.If):
          walk(s.body, tested + tests(s.test))
          walk(s.orelse, tested)
        elif isinstance(s, ast.Raise):
          report(s, tested)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (
            getattr(s.value.func, 'attr', None) or getattr(s.value.func, 'id', None)) in self.raisers:
          report(s, tested)
        else:
          for f in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(s, f, None), list):
              walk(getattr(s, f), tested)

    walk(fi.node.body, [])
    res.update(file=fi.module.path, line=fi.node.lineno, leaves=seen[0])
    if bad:
      n, keys = bad[0]
      return dict(res, verdict='diff', line=n.lineno, msg='error report looks up %s although only %s is known to be there' % (
          ast.unparse(n), ', '.join(keys)))
    return dict(res, verdict='eq', msg='')


class Holds:
  """A statement about module-level constants, written as a reference function, evaluates to True on the code's constants."""

  def __init__(self, code, spec, what):
    self.code, self.spec, self.what = code, spec, what

  def run(self, R):
    res = {'code': self.code, 'spec': self.spec, 'what': self.what, 'secs': 0, 'cases': 1, 'steps': 0, 'loops': 0, 'branches': 0, 'leaves': 1,
           'inlined': [self.code]}
    m = R.modules.get(self.code.split(':')[0])
    fi = R.func(self.spec)
    if m is None or fi is None:
      return dict(res, verdict='missing', msg='anchor not found')
    res.update(file=m.path, line=1)
    for n in m.tree.body:
      if isinstance(n, (ast.Assign, ast.AnnAssign)):
        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
          if isinstance(t, ast.Name) and t.id == self.code.split(':')[1]:
            res['line'] = n.lineno
    t = ip.Interp(R, opaque={fi.qual}).summary(fi, {})
    while t.op == 'ret':
      t = t.args[0]
    if tm.const(True) in (t,) or 'True' == str(t):
      return dict(res, verdict='eq', msg='')
    if tm.const(False) in (t,) or 'False' == str(t):
      return dict(res, verdict='diff', msg='%s does not hold of %s' % (self.what, self.code))
    return dict(res, verdict='unk', msg='not constant: %s' % str(t)[:80])


class Pattern:
  """A module-level regular expression accepts what its reference accepts, judged on its syntax tree, with a witness when it differs."""

  def __init__(self, code, reference, how='match'):
    self.code, self.reference, self.how = code, reference, how
    self.what = 'the pattern %s' % code.split(':')[1]

  def run(self, R):
    res = {'code': self.code, 'spec': 'pattern %r' % self.reference, 'what': self.what, 'secs': 0, 'cases': 1, 'steps': 0, 'loops': 0, 'branches': 0,
           'leaves': 1, 'inlined': [self.code]}
    mod, name = self.code.split(':')
    m = R.modules.get(mod)
    if m is None:
      return dict(res, verdict='missing', msg='anchor not found')
    res.update(file=m.path, line=1)
    found = [n for n in m.tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) and any(
        isinstance(t, ast.Name) and t.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
    if len(found) != 1:
      return dict(res, verdict='unk', msg='not a single module-level assignment')
    res['line'] = found[0].lineno
    v = found[0].value
    if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'compile' and len(v.args) == 1 and
            not v.keywords and isinstance(v.args[0], ast.Constant) and isinstance(v.args[0].value, str)):
      return dict(res, verdict='unk', msg='not a constant pattern')
    try:
      if tree(sre.parse(v.args[0].value)) == tree(sre.parse(self.reference)):
        return dict(res, verdict='eq', msg='')
    except (re.error, RecursionError):
      return dict(res, verdict='unk', msg='pattern not understood')
    import itertools
    a, b = re.compile(v.args[0].value), re.compile(self.reference)
    for k in range(4):
      for w in itertools.product(' \n\ta\u3000', repeat=k):
        w = ''.join(w)
        x, y = a.match(w), b.match(w)
        if (x is None) != (y is None) or x and x.group(0) != y.group(0):
          return dict(res, verdict='diff', msg='%r differs from %r on %r' % (v.args[0].value, self.reference, w))
    return dict(res, verdict='unk', msg='pattern written differently')


class Distinct:
  """The members of an enumeration have different values (two members with one value are the same member)."""

  def __init__(self, code):
    self.code = code
    self.what = 'the members of %s differ' % code.split(':')[1]

  def run(self, R):
    res = {'code': self.code, 'spec': 'distinct members', 'what': self.what, 'secs': 0, 'cases': 1, 'steps': 0, 'loops': 0, 'branches': 0,
           'leaves': 0, 'inlined': [self.code]}
    mod, name = self.code.split(':')
    m = R.modules.get(mod)
    cls = [s for s in m.tree.body if isinstance(s, ast.ClassDef) and s.name == name] if m else []
    if not cls:
      return dict(res, verdict='unk' if m else 'missing', msg='no such class')
    res.update(file=m.path, line=cls[0].lineno)
    last, seen, unk = 0, {}, False
    for s in cls[0].body:
      if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)) or s.targets[0].id.startswith('_'):
        continue
      v = s.value
      if isinstance(v, ast.Call) and ast.unparse(v.func) in ('enum.auto', 'auto') and not v.args:
        value = last + 1 if isinstance(last, int) else None
      elif isinstance(v, ast.Name) and any(k == v.id for k in seen.values()):
        value = [x for x, k in seen.items() if k == v.id][0]
      else:
        try:
          value = ast.literal_eval(v)
          hash(value)
        except (ValueError, TypeError):
          value = None
      if value is None:
        unk = True
        continue
      last = max(last, value) if isinstance(value, int) and isinstance(last, int) else value
      res['leaves'] += 1
      if value in seen:
        return dict(res, verdict='diff', line=s.lineno, msg='%s.%s is the same member as %s' % (name, s.targets[0].id, seen[value]))
      seen[value] = s.targets[0].id
    return dict(res, verdict='unk' if unk else 'eq', msg='a value is not constant' if unk else '')

"""Expression evaluation."""
import ast
import builtins
from . import terms as tm
from . import conds as cd
from . import seqops as so
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const, ite, and_, or_, not_
from .state import UNDEF, merge_val, State
from .repo import dotted
from .errors import Abort

_BUILTINS = set(dir(builtins))


_ELEMENTWISE = ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE')

class ExprMixin:

  def ev(self, n, st, frame):
    self.tick()
    m = getattr(self, 'ev_' + type(n).__name__, None)
    if m is None:
      raise Abort('expression ' + type(n).__name__)
    return m(n, st, frame)

  def ev_Constant(self, n, st, frame):
    if isinstance(n.value, str) and '<style' in n.value and self.options.get('unstyled'):
      return const('<style></style>')   # how things look is not compared
    return const(n.value)

  # ------------------------------------------------------------------- names
  def lookup_local(self, name, st, frame):
    f = frame
    while f is not None:
      k = ('v', f.fid, name)
      if name not in f.nonlocals:
        if k in st.cells:
          return st.cells[k]
        if name in f.locals:
          return UNDEF
      f = f.parent
    return None

  def ev_Name(self, n, st, frame):
    v = self.lookup_local(n.id, st, frame)
    if v is not None:
      return v
    g = st.cells.get(('g', frame.module.name, n.id))
    if g is not None:
      return g
    return self.global_name(frame.module, n.id)

  def global_name(self, mod, name):
    r = self.repo.lookup(mod, name)
    if r is None:
      if name in _BUILTINS:
        return T('bi', name)
      return tm.top('name ' + name)
    return self.global_value(r, name)

  def global_value(self, r, name):
    kind, obj, m = r
    if kind == 'func':
      return T('func', obj.qual)
    if kind == 'class':
      return T('cls', obj.qual)
    if kind == 'mod':
      return T('mod', obj.name)
    if kind == 'ext':
      return T('ext', obj)
    if kind == 'clsattr':
      ci, rest = obj
      v = T('cls', ci.qual)
      for a in rest:
        v = self.cls_attr(v, a)
      return v
    if kind == 'assign':
      if isinstance(obj, ast.Constant) and isinstance(obj.value, bool) and name.split('.')[-1].isupper():
        return tm.sym('$%s.%s' % (m.name.split('.')[-1], name.split('.')[-1]), cd.BOOL)   # a switch users may set
      key = (m.name, id(obj))
      if key in self.modvals:
        return self.modvals[key]
      self.modvals[key] = tm.top('module cycle')
      s = State()
      fr = self.new_frame(None, m, None)
      try:
        v = self.ev(obj, s, fr)
        v = self.reify(v, s)
      except Abort as e:
        v = tm.top('module value %s: %s' % (name, e))
      self.modvals[key] = v
      return v
    return tm.top('global ' + name)

  def global_dotted(self, name):
    return self.global_value(self.repo.resolve_dotted(name), name)

  def cls_attr(self, c, name):
    ci = cd.cls_of(c.args[0])
    if ci is None:
      return T('attr', c, name)
    for k in self.repo.mro(ci):
      if name in k.members:
        # enum aliases share a value; keep the first member with it
        return T('enum', k.qual, name)
      if name in k.methods:
        if name in k.classmethods:
          return T('bound', c, name)
        return T('func', k.methods[name].qual)
      if name in k.class_vars:
        return self.class_var(k, k.class_vars[name], name)
      for f in k.fields:
        if f[0] == name and f[2] is not None:
          return self.class_var(k, f[2], name)
    if name == '__name__':
      return const(ci.name)
    return T('attr', c, name)

  def class_var(self, ci, node, name):
    key = (ci.qual, name)
    if key not in self.modvals:
      s = State()
      fr = self.new_frame(None, ci.module, None)
      self.modvals[key] = tm.top('cycle')
      # other class variables are visible
      for nm, nd in ci.class_vars.items():
        if nm != name and (ci.qual, nm) in self.modvals:
          s.cells[('v', fr.fid, nm)] = self.modvals[(ci.qual, nm)]
      try:
        self.modvals[key] = self.reify(self.ev(node, s, fr), s)
      except Abort as e:
        self.modvals[key] = tm.top(str(e))
    return self.modvals[key]

  # --------------------------------------------------------------- attributes
  def ev_Attribute(self, n, st, frame):
    b = self.ev(n.value, st, frame)
    return self.get_attr(b, n.attr, st)

  def get_attr(self, b, name, st):
    if b.op == 'ite':
      c = self.cond(b.args[0], st)
      return self.split(c, st, lambda x: self.get_attr(b.args[1], name, x),
                        lambda x: self.get_attr(b.args[2], name, x))
    if b.op == 'mod':
      mod = self.repo.modules[b.args[0]]
      r = self.repo.lookup(mod, name)
      if r is None:
        sub = mod.name + '.' + name
        if sub in self.repo.modules:
          return T('mod', sub)
        return FALSE if sub == 'typing.TYPE_CHECKING' else T('ext', sub)
      return self.global_value(r, name)
    if b.op == 'ext':
      if (b.args[0], name) == ('typing', 'TYPE_CHECKING'):
        return FALSE
      return T('ext', b.args[0] + '.' + name)
    if b.op == 'cls':
      return self.cls_attr(b, name)
    if b.op == 'ref':
      v = st.cells.get(('f', b, name))
      if v is not None:
        return v
      k = self.kind(b)
      if isinstance(k, tuple) and k[0] == 'inst':
        return self.class_member(b, k[1], name, st)
      return T('bound', b, name)
    if b.op == 'rec':
      for f, v in b.args[1]:
        if f == name:
          return v
      ci = cd.cls_of(b.args[0])
      if ci is not None:
        return self.class_member(b, ci, name, st)
    if b.op == 'super':
      return T('bound', b, name)
    o = st.cells.get(('a', b, name))
    if o is not None:
      return o
    ty = cd.type_of(b)
    # a narrowed union
    ty2 = self.narrow(b, ty, st)
    if ty2 and ty2[0] == 'cls':
      ci = cd.cls_of(ty2[1])
      if ci is not None:
        r = self.class_member(b, ci, name, st, only_code=True)
        if r is not None:
          return r
    return so.mk_attr(b, name)

  def narrow(self, b, ty, st):
    for q in st.facts.inst.get(b, ()):
      if not q.startswith('bi:'):
        return ('cls', q)
    return cd.strip_none(ty)

  def class_member(self, b, ci, name, st, only_code=False):
    fi = self.repo.find_method(ci, name)
    if fi is not None:
      if self.repo.is_prop(ci, name):
        if fi.qual in self.opaque or self.is_abstract(fi):
          return so.mk_attr(b, name)
        return self.call_func(fi, [b], [], st)
      return T('bound', b, name)
    if only_code:
      return None
    for k in self.repo.mro(ci):
      if name in k.class_vars:
        return self.class_var(k, k.class_vars[name], name)
      for f in k.fields:
        if f[0] == name and f[2] is not None:
          return self.class_var(k, f[2], name)
    return so.mk_attr(b, name)

  def is_abstract(self, fi):
    for d in fi.node.decorator_list:
      if (dotted(d) or '').endswith('abstractmethod'):
        return True
    body = [s for s in fi.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if not body:
      return True
    return len(body) == 1 and isinstance(body[0], ast.Raise) and 'NotImplemented' in ast.dump(body[0])

  # ---------------------------------------------------------------- operators
  def ev_BoolOp(self, n, st, frame):
    isand = isinstance(n.op, ast.And)

    def rec(i, x):
      v = self.ev(n.values[i], x, frame)
      if i == len(n.values) - 1:
        return v
      c = self.truth_of(v, x)
      bv = cd.type_of(v) == cd.BOOL or v.op in cd._BOOL_OPS
      short = (FALSE if isand else TRUE) if bv else v
      if isand:
        return self.split(c, x, lambda y: rec(i + 1, y), lambda y: short)
      return self.split(c, x, lambda y: short, lambda y: rec(i + 1, y))

    return rec(0, st)

  def ev_UnaryOp(self, n, st, frame):
    v = self.ev(n.operand, st, frame)
    if isinstance(n.op, ast.Not):
      return not_(self.truth_of(v, st))
    v = self.content(v, st)
    if isinstance(n.op, ast.USub):
      if v.op == 'ite':
        return self.map_ite(v, tm.neg)
      return tm.neg(v)
    if isinstance(n.op, ast.UAdd):
      return v
    return T('call', T('bi', 'invert'), (self.reify(v, st),), ())

  def map_ite(self, v, f):
    if v.op == 'ite':
      return ite(v.args[0], self.map_ite(v.args[1], f), self.map_ite(v.args[2], f))
    return f(v)

  def ev_BinOp(self, n, st, frame):
    a = self.ev(n.left, st, frame)
    b = self.ev(n.right, st, frame)
    return self.binop(n.op, a, b, st)

  def binop(self, op, a, b, st):
    a0, b0 = a, b
    a, b = self.content(a, st), self.content(b, st)
    name = type(op).__name__
    if name == 'Add':
      ta, tb = cd.strip_none(cd.type_of(a)), cd.strip_none(cd.type_of(b))
      isseq = lambda x, ty: x.op in ('lst',) or (ty and ty[0] in ('seq', 'tuple'))
      if isseq(a, ta) or isseq(b, tb):
        segs = tm.lst_segs(a) + tm.lst_segs(b)
        v = tm.lst(segs)
        if a0.op == 'ref' or b0.op == 'ref':
          return self.alloc_list(st, v)
        return v
      if ta == cd.STR or tb == cd.STR or tm.is_str(a) or tm.is_str(b):
        return tm.cat(a, b)
      return tm.add(a, b)
    if name == 'Sub':
      ta = cd.type_of(a)
      if a.op == 'set' or b.op == 'set':
        return T('setop', 'sub', self.reify(a, st), self.reify(b, st))
      return tm.sub(a, b)
    if name == 'Mult':
      ta, tb = cd.type_of(a), cd.type_of(b)
      if a.op == 'lst' or b.op == 'lst':
        l, k = (a, b) if a.op == 'lst' else (b, a)
        if tm.is_num(k) and tm.num(k) >= 0 and tm.num(k) < 50:
          return self.alloc_list(st, tm.lst(l.args[0] * int(tm.num(k))))
        return self.alloc_list(st, tm.lst((T('L', k, FALSE, l.args[0]),)))
      if ta == cd.STR or tb == cd.STR or tm.is_str(a) or tm.is_str(b):
        s_, k = (a, b) if (tm.is_str(a) or ta == cd.STR) else (b, a)
        if tm.is_str(s_) and tm.is_num(k):
          return const(s_.args[1] * int(tm.num(k)))
        return so.mk_strl(k, FALSE, s_)
      return tm.mul(a, b)
    if name == 'Div':
      return tm.div(a, b)
    if name == 'Mod':
      if tm.is_str(a):
        return T('call', T('bi', 'format%'), (a, self.reify(b, st)), ())
      if tm.is_num(a) and tm.is_num(b) and tm.num(b):
        return const(tm.num(a) % tm.num(b))
    if name == 'FloorDiv' and tm.is_num(a) and tm.is_num(b) and tm.num(b):
      return const(tm.num(a) // tm.num(b))
    if name == 'Pow':
      if tm.is_num(b) and tm.num(b).denominator == 1 and 0 <= tm.num(b) <= 6:
        r = ONE
        for _ in range(int(tm.num(b))):
          r = tm.mul(r, a)
        return r
    if name in ('BitOr', 'BitAnd'):
      if cd.type_of(a) == cd.BOOL and cd.type_of(b) == cd.BOOL:
        return (or_ if name == 'BitOr' else and_)(cd.truth(a), cd.truth(b))
      if a.op == 'set' or b.op == 'set' or a.op == 'dct':
        if name == 'BitOr' and a.op == b.op:
          return T(a.op, a.args[0] + b.args[0])
        return T('setop', name, self.reify(a, st), self.reify(b, st))
    return T('bin', name, self.reify(a, st), self.reify(b, st))

  def ev_Compare(self, n, st, frame):
    left = self.ev(n.left, st, frame)

    def rec(i, l, x):
      r = self.ev(n.comparators[i], x, frame)
      c = self.compare_op(n.ops[i], l, r, x)
      if i == len(n.ops) - 1:
        return c
      return self.split(self.cond(c, x), x, lambda y: rec(i + 1, r, y), lambda y: FALSE)

    return rec(0, left, st)

  def compare_op(self, op, a, b, st):
    name = type(op).__name__
    if name in ('Is', 'IsNot'):
      if a.op == 'ref' and b.op == 'ref':
        r = TRUE if a is b else FALSE
      else:
        x, y = a, b
        if x.op == 'ref' and y is NONE or y.op == 'ref' and x is NONE:
          r = FALSE
        else:
          r = cd.eq(self.reify(self.content(a, st), st), self.reify(self.content(b, st), st))
      return r if name == 'Is' else not_(r)
    a, b = self.reify(self.content(a, st), st), self.reify(self.content(b, st), st)
    if name in _ELEMENTWISE and (cd.is_array(a) or cd.is_array(b)):
      if name in ('Lt', 'LtE'):
        a, b, name = b, a, {'Lt': 'Gt', 'LtE': 'GtE'}[name]
      return T('bin', name, a, b)
    if name in ('Eq', 'NotEq'):
      r = self.type_eq(a, b)
      if r is None:
        r = cd.eq(a, b)
      return r if name == 'Eq' else not_(r)
    if name == 'Lt':
      return cd.lt(a, b)
    if name == 'Gt':
      return cd.lt(b, a)
    if name == 'LtE':
      return cd.le(a, b)
    if name == 'GtE':
      return cd.le(b, a)
    if name in ('In', 'NotIn'):
      if b.op == 'cls':
        ci = cd.cls_of(b.args[0])
        if ci is not None and ci.members:
          b = tm.lst(tuple(T('e', T('enum', b.args[0], m)) for m in ci.members))
      r = self.map_type_member(a, b)
      return r if name == 'In' else not_(r)
    raise Abort('compare')

  def map_type_member(self, a, b):
    if a.op == 'typeof' and b.op in ('lst', 'set') and all(s.op == 'e' for s in b.args[0]):
      r = FALSE
      for s in b.args[0]:
        r = or_(r, self.type_eq(a, s.args[0]) or FALSE)
      return r
    return cd.member(a, b)

  def type_eq(self, a, b):
    if b.op == 'typeof':
      a, b = b, a
    if a.op == 'typeof' and b.op in ('cls', 'bi'):
      return self.isinst_term(a.args[0], b)
    return None

  def isinst_term(self, v, cls):
    if cls.op == 'cls':
      return cd.isinst(v, cls.args[0])
    if cls.op == 'bi':
      return cd.isinst(v, 'bi:' + cls.args[0])
    return T('truthy', T('call', T('bi', 'isinstance'), (v, cls), ()))

  def isinstance_cond(self, v, cls, st):
    if cls.op == 'lst':
      r = FALSE
      for s in cls.args[0]:
        if s.op != 'e':
          return T('truthy', T('call', T('bi', 'isinstance'), (self.reify(v, st), cls), ()))
        r = or_(r, self.isinstance_cond(v, s.args[0], st))
      return r
    if cls.op == 'union_t':
      r = FALSE
      for q in cls.args[0]:
        r = or_(r, self.isinstance_cond(v, q, st))
      return r
    if v.op == 'ref':
      k = self.kind(v)
      if isinstance(k, tuple) and k[0] == 'inst':
        if cls.op == 'cls':
          ci = cd.cls_of(cls.args[0])
          return TRUE if ci is not None and self.repo.is_subclass(k[1], ci) else FALSE
        return FALSE
      if cls.op == 'bi':
        return TRUE if cls.args[0] == k else FALSE
      return FALSE
    if v.op == 'ite':
      return ite(v.args[0], self.isinstance_cond(v.args[1], cls, st), self.isinstance_cond(v.args[2], cls, st))
    if cls.op == 'ext' and cls.args[0].startswith('typing.'):
      pass
    r = self.isinst_term(v, cls)
    return self.cond(r, st)

  def ev_IfExp(self, n, st, frame):
    c = self.truth_of(self.ev(n.test, st, frame), st)
    return self.split(c, st, lambda x: self.ev(n.body, x, frame), lambda x: self.ev(n.orelse, x, frame))

  def ev_NamedExpr(self, n, st, frame):
    v = self.ev(n.value, st, frame)
    f = frame
    while f.node is None and f.parent is not None:
      f = f.parent
    self.assign(n.target, v, st, f)
    return v

  # ----------------------------------------------------------------- literals
  def ev_Tuple(self, n, st, frame):
    return self.literal_seq(n, st, frame)

  def literal_seq(self, n, st, frame):
    segs = []
    for e in n.elts:
      if isinstance(e, ast.Starred):
        segs.extend(self.seq_segs(self.ev(e.value, st, frame), st))
      else:
        segs.append(T('e', self.ev(e, st, frame)))
    return tm.lst(tuple(segs))

  def ev_List(self, n, st, frame):
    v = self.literal_seq(n, st, frame)
    return self.alloc_list(st, v)

  def ev_Set(self, n, st, frame):
    v = self.literal_seq(n, st, frame)
    r = self.new_ref('set')
    st.cells[('o', r)] = T('set', v.args[0])
    return r

  def ev_Dict(self, n, st, frame):
    segs = []
    for k, v in zip(n.keys, n.values):
      if k is None:
        d = self.content(self.ev(v, st, frame), st)
        segs.extend(d.args[0] if d.op == 'dct' else (T('x', d),))
      else:
        kk = self.reify(self.ev(k, st, frame), st)
        segs.append(T('e', T('kv', kk, self.ev(v, st, frame))))
    return self.alloc_dict(st, tm.dct(tuple(segs)))

  def seq_segs(self, v, st):
    v = self.content(v, st)
    if v.op == 'lst':
      return v.args[0]
    if v.op == 'set':
      return v.args[0]
    if v.op == 'dct':
      out = []
      for s in v.args[0]:
        out.extend(_key_seg(s))
      return tuple(out)
    return self.iter_segs(v, st)

  def ev_JoinedStr(self, n, st, frame):
    parts = []
    for p in n.values:
      if isinstance(p, ast.Constant):
        parts.append(const(p.value))
      else:
        v = self.content(self.ev(p.value, st, frame), st)
        v = self.reify(v, st)
        spec = None
        if p.format_spec is not None:
          spec = self.reify(self.ev(p.format_spec, st, frame), st)
          if tm.is_str(spec) and spec.args[1] == '':
            spec = None
        if p.conversion == 114:
          v = T('call', T('bi', 'repr'), (v,), ())
        if spec is not None:
          parts.append(T('fmt', v, spec))
        else:
          parts.append(so.tostr(v))
    return tm.cat(*parts)

  def ev_FormattedValue(self, n, st, frame):
    return so.tostr(self.reify(self.content(self.ev(n.value, st, frame), st), st))

  def ev_Lambda(self, n, st, frame):
    return self.make_closure(n, frame)

  def ev_Starred(self, n, st, frame):
    raise Abort('starred')

  def ev_Await(self, n, st, frame):
    raise Abort('await')

  def ev_Yield(self, n, st, frame):
    v = NONE if n.value is None else self.ev(n.value, st, frame)
    k = ('y', frame.fid)
    if k not in st.cells:
      raise Abort('yield in expression')
    st.cells[k] = tm.lst(st.cells[k].args[0] + (T('e', v),))
    return NONE

  def ev_YieldFrom(self, n, st, frame):
    v = self.ev(n.value, st, frame)
    k = ('y', frame.fid)
    st.cells[k] = tm.lst(st.cells[k].args[0] + tuple(self.seq_segs(v, st)))
    return NONE

  # ---------------------------------------------------------------- subscript
  def ev_slice(self, n, st, frame):
    if isinstance(n, ast.Slice):
      f = lambda x: NONE if x is None else self.ev(x, st, frame)
      return T('sl', f(n.lower), f(n.upper), f(n.step))
    if isinstance(n, ast.Tuple):
      vals = [self.ev_slice(e, st, frame) for e in n.elts]
      full = T('sl', NONE, NONE, NONE)
      while len(vals) > 1 and vals[-1] is full:
        vals.pop()  # array[i, :] is array[i]
      if len(vals) == 1 and len(n.elts) > 1:
        return vals[0]
      return tm.lst(tuple(T('e', v) for v in vals))
    return self.reify(self.ev(n, st, frame), st)

  def ev_Subscript(self, n, st, frame):
    b = self.ev(n.value, st, frame)
    if b.op in ('cls', 'ext', 'bi') and not (b.op == 'cls' and self.repo.kind(cd.cls_of(b.args[0])) == 'enum'):
      # typing subscripts and generic aliases
      if b.op == 'ext' and b.args[0] in ('typing.Union', 'typing.Optional'):
        i = self.ev_slice(n.slice, st, frame)
        els = tuple(s.args[0] for s in i.args[0]) if i.op == 'lst' else (i,)
        return T('union_t', els)
      return b
    i = self.ev_slice(n.slice, st, frame)
    return self.get_item(b, i, st)

  def get_item(self, b, i, st):
    if b.op == 'ite':
      c = self.cond(b.args[0], st)
      return self.split(c, st, lambda x: self.get_item(b.args[1], i, x),
                        lambda x: self.get_item(b.args[2], i, x))
    if b.op == 'cls':
      if tm.is_str(i):
        return T('enum', b.args[0], i.args[1])
      return T('call', b, (i,), ())
    return self.item_of(b, self.content(b, st), i, st)

  def item_of(self, b, v, i, st):
    if v.op == 'ref':
      return self.get_item(v, i, st)
    if v.op == 'ite':
      c = self.cond(v.args[0], st)
      return self.split(c, st, lambda x: self.item_of(b, v.args[1], i, x),
                        lambda x: self.item_of(b, v.args[2], i, x))
    if i.op == 'sl':
      r = so.mk_slice(v, *i.args)
      if b.op == 'ref' and self.kind(b) != 'array':
        return self.alloc_list(st, r)
      return r
    r = so.mk_item(v, i)
    o = st.cells.get(('c', r))
    if r.op == 'nokey':
      st.exits.append((TRUE, T('exc', 'KeyError')))
      return tm.top('nokey')
    if r.op == 'ite':
      r = self.resolve_nokey(r, st)
    if r.op == 'typed':
      pass
    return r

  def resolve_nokey(self, r, st):
    """Turns KeyError alternatives of a dict lookup into exits."""
    if not _has_nokey(r):
      return r

    def go(x, pc):
      if x.op == 'nokey':
        st.exits.append((pc, T('exc', 'KeyError')))
        return None
      if x.op == 'ite':
        a = go(x.args[1], and_(pc, x.args[0]))
        b = go(x.args[2], and_(pc, not_(x.args[0])))
        if a is None:
          return b
        if b is None:
          return a
        return ite(x.args[0], a, b)
      return x

    r2 = st.facts.simp(r)
    v = go(r2, TRUE)
    return v if v is not None else tm.top('nokey')

  # ------------------------------------------------------------ comprehensions
  def comp_frame(self, n, frame):
    f = self.new_frame(frame, frame.module, None, frame.cls)
    for g in n.generators:
      for x in ast.walk(g.target):
        if isinstance(x, ast.Name):
          f.locals.add(x.id)
    return f

  def comprehension(self, n, st, frame, emit):
    f = self.comp_frame(n, frame)

    def rec(k, x):
      if k == len(n.generators):
        emit(x, f)
        return self.simple(x)
      g = n.generators[k]
      it = self.ev(g.iter, x, f if k else frame)

      def body(y, elem):
        self.assign(g.target, elem, y, f)

        def conds(j, z):
          if j == len(g.ifs):
            return rec(k + 1, z)
          c = self.truth_of(self.ev(g.ifs[j], z, f), z)
          return self.branch(c, z, lambda w: conds(j + 1, w), lambda w: [(TRUE, 'next', None, w)])

        return conds(0, y)

      return self.after(x, lambda y: self.run_iter(it, y, body))

    outs = rec(0, st)
    self.absorb(outs, st)

  def absorb(self, outs, st):
    """Folds statement outcomes (next/raise) of a sub-computation into st."""
    nexts = []
    for c, sig, val, s in outs:
      if sig == 'next':
        nexts.append((c, s))
      elif sig == 'raise':
        st.exits.append((c, val))
      else:
        raise Abort('signal in expression')
    if not nexts:
      if not any(c is TRUE for c, e in st.exits):
        st.exits.append((TRUE, T('exc', '?')))
      return
    c, s = merge_many_(nexts, st.facts)
    st.cells = s.cells
    for k in [k for k in st.cells if k[0] == 'v' and False]:
      pass
    if len(nexts) == 1:
      st.facts = s.facts

  def ev_ListComp(self, n, st, frame):
    r = self.new_ref('list')
    st.cells[('o', r)] = tm.lst(())

    def emit(x, f):
      v = self.ev(n.elt, x, f)
      x.cells[('o', r)] = tm.lst(x.cells[('o', r)].args[0] + (T('e', v),))

    self.comprehension(n, st, frame, emit)
    return r

  ev_GeneratorExp = ev_ListComp

  def ev_SetComp(self, n, st, frame):
    r = self.new_ref('set')
    st.cells[('o', r)] = T('set', ())

    def emit(x, f):
      v = self.ev(n.elt, x, f)
      x.cells[('o', r)] = T('set', x.cells[('o', r)].args[0] + (T('e', v),))

    self.comprehension(n, st, frame, emit)
    return r

  def ev_DictComp(self, n, st, frame):
    r = self.new_ref('dict')
    st.cells[('o', r)] = tm.dct(())

    def emit(x, f):
      k = self.reify(self.ev(n.key, x, f), x)
      v = self.ev(n.value, x, f)
      x.cells[('o', r)] = tm.dct(x.cells[('o', r)].args[0] + (T('e', T('kv', k, v)),))

    self.comprehension(n, st, frame, emit)
    return r


def merge_many_(items, facts):
  from .state import merge_many
  return merge_many(items, facts)


def _has_nokey(r):
  if r.op == 'nokey':
    return True
  if r.op == 'ite':
    return _has_nokey(r.args[1]) or _has_nokey(r.args[2])
  return False


def _key_seg(s):
  if s.op == 'e':
    return (T('e', s.args[0].args[0]),)
  if s.op == 'x':
    return (T('x', T('keys', s.args[0])),)
  if s.op == 'br':
    a = tuple(q for x in s.args[1] for q in _key_seg(x))
    b = tuple(q for x in s.args[2] for q in _key_seg(x))
    return tm.br(s.args[0], a, b)
  if s.op == 'L':
    inner = tuple(q for x in s.args[2] for q in _key_seg(x))
    return (T('L', s.args[0], s.args[1], inner),)
  return (T('x', T('keys', T('dct', (s,)))),)

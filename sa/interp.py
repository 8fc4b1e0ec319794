"""Abstract interpreter: computes a gated summary term for a function.

Values are terms (value numbers); branches are joined with gates (ite), loops
are summarised by one generic iteration, and effects on containers and on
caller-visible objects are kept as cell contents.  Nothing is executed and no
path is handed to a solver.
"""
import ast
from . import terms as tm
from . import conds as cd
from . import seqops as so
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const, ite, and_, or_, not_, INF
from .state import (State, Ctx, UNDEF, default_cell, merge_val, merge_cells,
                    merge_states, merge_many)
from .repo import dotted, FuncInfo, ClassInfo, Module
from .errors import Abort
from . import loops
from . import calls
from . import exprs


class Frame:

  def __init__(self, fid, parent, module, node, cls=None):
    self.fid = fid
    self.parent = parent
    self.module = module
    self.node = node
    self.cls = cls
    self.nonlocals = {}
    self.locals = set()
    self.yields = False
    self.ctx_hook = None


class Closure:

  def __init__(self, node, frame, module, cls=None, qual=None):
    self.node = node
    self.frame = frame
    self.module = module
    self.cls = cls
    self.qual = qual


def local_names(node):
  """Names bound in a function body (not nested functions)."""
  out, nl, gl = set(), set(), set()
  a = node.args
  for p in a.posonlyargs + a.args + a.kwonlyargs:
    out.add(p.arg)
  if a.vararg:
    out.add(a.vararg.arg)
  if a.kwarg:
    out.add(a.kwarg.arg)

  def walk(n):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
      out.add(n.name)
      return
    if isinstance(n, ast.ClassDef):
      out.add(n.name)
      return
    if isinstance(n, ast.Lambda):
      return
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      out.add(n.id)
    if isinstance(n, (ast.Import, ast.ImportFrom)):
      for al in n.names:
        out.add((al.asname or al.name).split('.')[0])
    if isinstance(n, ast.ExceptHandler) and n.name:
      out.add(n.name)
    if isinstance(n, ast.MatchAs) and n.name:
      out.add(n.name)
    if isinstance(n, ast.MatchStar) and n.name:
      out.add(n.name)
    if isinstance(n, ast.Nonlocal):
      nl.update(n.names)
    if isinstance(n, ast.Global):
      gl.update(n.names)
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
      # comprehension targets are local to the comprehension
      for g in n.generators:
        walk(g.iter)
      return
    for c in ast.iter_child_nodes(n):
      walk(c)

  body = node.body if isinstance(node.body, list) else [node.body]
  for s in body:
    walk(s)
  return out - nl - gl, nl, gl


def has_yield(node):
  def walk(n):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
      return False
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      return True
    return any(walk(c) for c in ast.iter_child_nodes(n))
  return any(walk(s) for s in node.body)


class PartDone(Exception):

  def __init__(self, term):
    super().__init__('part')
    self.term = term


class GrabDone(Exception):
  pass


def opaque_cond(c):
  """Every atom of the condition tests the result of an uninterpreted function."""
  if c.op == 'ite':
    return all(x is TRUE or x is FALSE or opaque_cond(x) for x in c.args)
  return c.op == 'truthy' and c.args[0].op == 'call' and c.args[0].args[0].op == 'func'


def call_rooted(t):
  while t.op in ('item', 'slice'):
    t = t.args[0]
  return t.op == 'call'


MUTATORS = {'append', 'extend', 'pop', 'insert', 'remove', 'clear', 'add', 'update', 'discard', 'popleft', 'appendleft',
            'setdefault', 'sort', 'reverse'}


def ann_of(fn, name):
  for n in ast.walk(fn):
    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
      return n.annotation
  return None


def top_loops(fn):
  return [x for x in fn.body if isinstance(x, (ast.For, ast.While))]


def own_nodes(s):
  """Nodes of a statement outside nested functions."""
  todo = [s]
  while todo:
    x = todo.pop()
    if isinstance(x, (ast.FunctionDef, ast.Lambda)):
      continue
    yield x
    todo.extend(ast.iter_child_nodes(x))


def flow_names(fn, loop):
  """Carried names that exist before the loop or are read after it."""
  body = fn.body
  i = body.index(loop)
  a = fn.args
  before = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
  for s in body[:i]:
    before |= {n.id for n in own_nodes(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
  out = set()
  for n in carried_names(fn, loop):
    if n in before or read_first(body[i + 1:], n):
      out.add(n)
  return out


def walk_unbound(s, name):
  """ast.walk, leaving out loops that bind the name themselves."""
  todo = [s]
  while todo:
    x = todo.pop(0)
    yield x
    if isinstance(x, ast.For) and any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(x.target)):
      todo.extend(x.orelse)
    else:
      todo.extend(ast.iter_child_nodes(x))


def read_first(stmts, name):
  for s in stmts:
    for x in walk_unbound(s, name):
      if isinstance(x, ast.stmt) and not isinstance(x, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.FunctionDef)):
        occ = [n for n in ast.walk(x) if isinstance(n, ast.Name) and n.id == name]
        if any(isinstance(n.ctx, ast.Load) for n in occ) or (occ and isinstance(x, ast.AugAssign)):
          return True
        if occ:
          return False
      elif isinstance(x, (ast.If, ast.While)):
        if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(x.test)):
          return True
      elif isinstance(x, ast.For):
        if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(x.iter)):
          return True
      elif isinstance(x, (ast.With, ast.Try, ast.FunctionDef)):
        if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(x)):
          return True
  return False


def read_later(fn, loop, name):
  places = fn.body[fn.body.index(loop) + 1:] + [x for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn]
  return any(isinstance(n, ast.Name) and n.id == name for p in places for n in ast.walk(p)) or any(
      isinstance(n, ast.Nonlocal) for n in ast.walk(fn))


def def_name(fn, s):
  """name#k for the k-th definition of a nested function."""
  same = sorted((x for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x.name == s.name), key=lambda x: x.lineno)
  return '%s#%d' % (s.name, same.index(s))


def item_base(x):
  while isinstance(x, ast.Subscript):
    x = x.value
  return x


def shared_changes(node, parent):
  """Variables of the enclosing function that a nested function (or one it calls) rebinds or mutates."""
  peers = {x.name: x for x in ast.walk(parent.node) if isinstance(x, ast.FunctionDef)} if parent.node is not None else {}
  out, todo, seen = set(), [node], set()
  while todo:
    f = todo.pop()
    if f in seen:
      continue
    seen.add(f)
    out |= {n for x in ast.walk(f) if isinstance(x, ast.Nonlocal) for n in x.names}
    for n in ast.walk(f):
      b = None
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
        b = n.func.value
      elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
        b = n.value
      while isinstance(b, (ast.Subscript, ast.Attribute)):
        b = b.value
      if isinstance(b, ast.Name):
        out.add(b.id)
      if isinstance(n, ast.Name) and n.id in peers:
        todo.append(peers[n.id])
  return out


def carried_names(fn, loop):
  """Names a loop rebinds or mutates."""
  out = set()
  targets = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)} if isinstance(loop, ast.For) else set()
  for n in ast.walk(loop):
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      out.add(n.id)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(item_base(n.func.value), ast.Name):
      out.add(item_base(n.func.value).id)
    if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) and isinstance(item_base(n.value), ast.Name):
      out.add(item_base(n.value).id)
  return out - targets


class Interp(loops.LoopMixin, calls.CallMixin, exprs.ExprMixin):

  def __init__(self, repo, opaque=(), emitters=None, inline_limit=60, budget=400000, options=None):
    self.repo = repo
    self.opaque = set(opaque)
    self.emitters = emitters or {}
    self.ctx = Ctx()
    self.closures = {}
    self.frames = {}
    self.stack = []
    self.steps = 0
    self.budget = budget
    self.inline_limit = inline_limit
    self.modvals = {}
    self.loop_mark = 0
    self.rec = {}
    self.visited = set()       # functions inlined
    self.nloops = 0
    self.ranges = []
    self.own = 0
    self.count = None   # how often the loop looked into runs
    self.nbranches = 0
    self.ncalls = 0
    self.options = options or {}
    self.fix_depth = 0
    self.loop_depth = 0
    self.fix_cache = {}
    self.part = None           # analyse only a nested function / one loop
    self.part_frame = None
    self.part_node = None
    self.flow_frame = None
    self.inner_scope = None
    self.mark = ''
    self.opaque_inner = ()
    self.free = ()
    self.free_frame = None

  # ------------------------------------------------------------------ basics
  def tick(self):
    self.steps += 1
    if self.steps > self.budget:
      raise Abort('step budget exceeded')

  def new_frame(self, parent, module, node, cls=None):
    self.ctx.next_frame += 1
    f = Frame(self.ctx.next_frame, parent, module, node, cls)
    self.frames[f.fid] = f
    if node is not None and isinstance(node, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
      loc, nl, gl = local_names(node)
      f.locals = loc
      f.nonlocals = nl
    return f

  def new_ref(self, kind):
    self.ctx.next_ref += 1
    r = T('ref', self.ctx.next_ref)
    self.ctx.ref_kind[r] = kind
    return r

  def alloc_list(self, st, value):
    r = self.new_ref('list')
    st.cells[('o', r)] = value
    return r

  def alloc_dict(self, st, value):
    r = self.new_ref('dict')
    st.cells[('o', r)] = value
    return r

  def kind(self, r):
    return self.ctx.ref_kind.get(r)

  def cond(self, c, st):
    """Simplify a condition under the current facts."""
    return st.facts.simp(c)

  def truth_of(self, v, st):
    return self.cond(cd.truth(self.content(v, st)), st)

  def content(self, v, st):
    """Value of v with a top-level container reference replaced by its content."""
    if v.op == 'ref':
      k = self.kind(v)
      if k in ('list', 'dict', 'set', 'array'):
        return st.cells.get(('o', v), UNDEF)
      return v
    if v.op == 'ite':
      return merge_val(v.args[0], self.content(v.args[1], st), self.content(v.args[2], st))
    c = st.cells.get(('c', v))
    if c is not None:
      return c
    return v

  def reify(self, v, st, seen=()):
    """Replace every heap reference in v by the term of its content."""
    refs = [r for r in tm.frees(v) if r.op in ('ref', 'clo')]
    if not refs:
      return v
    m = {}
    for r in refs:
      m[r] = self.reify_ref(r, st, seen)
    return tm.subst(v, m)

  def reify_ref(self, r, st, seen):
    if r in seen:
      if self.part is not None:
        # back reference: number of enclosing objects up to the one meant
        return T('cyc', const(sum(1 for x in seen[seen.index(r) + 1:] if isinstance(self.kind(x), tuple))))
      return tm.top('cycle')
    seen = seen + (r,)
    if r.op == 'clo':
      return self.reify_closure(r, st)
    k = self.kind(r)
    if k in ('list', 'dict', 'set', 'array'):
      return self.reify(st.cells.get(('o', r), UNDEF), st, seen)
    if isinstance(k, tuple) and k[0] == 'inst':
      ci = k[1]
      names = [f[0] for f in self.repo.all_fields(ci)] if self.repo.kind(ci) in ('dataclass', 'namedtuple') else []
      vals = []
      got = set()
      for n in names:
        v = st.cells.get(('f', r, n))
        if v is not None:
          vals.append((n, self.reify(v, st, seen)))
          got.add(n)
      extra = sorted((key[2], v) for key, v in st.cells.items()
                     if key[0] == 'f' and key[1] is r and key[2] not in got)
      for n, v in extra:
        vals.append((n, self.reify(v, st, seen)))
      return T('rec', ci.qual, tuple(vals))
    return tm.top('ref')

  def with_overlay(self, v, st):
    """Replace opaque containers / objects by their updated contents."""
    m = {}
    for key, val in st.cells.items():
      if key[0] == 'c' and tm.frees(key[1]) <= tm.frees(v) | tm.frees(key[1]):
        m[key[1]] = val
    return v

  # ----------------------------------------------------------------- analyse
  def summary(self, fi, param_syms=None, self_cls=None, part=None, part_syms=None, inner=(), free=()):
    """Summary term for FuncInfo fi with symbolic parameters."""
    node = fi.node
    st = State()
    frame = self.new_frame(None, fi.module, node, fi.cls)
    params = self.param_list(node)
    self.param_syms = []
    for i, (name, kind, default, ann) in enumerate(params):
      s = None
      if param_syms is not None:
        s = param_syms.get(name)
        if s is None:
          s = param_syms.get(i)
      if s is None:
        if i == 0 and fi.cls is not None and name in ('self', 'cls'):
          ty = ('cls', fi.cls.qual)
        else:
          ty = cd.resolve_ann(ann, fi.module) if ann is not None else None
        s = tm.sym('$' + name, ty)
      if kind == 'vararg' and s.args[1] is None:
        pass
      st.cells[('v', frame.fid, name)] = s
      self.param_syms.append(s)
    self.visited.add(fi.qual)
    if not all(any(isinstance(x, ast.FunctionDef) and x.name == n for x in ast.walk(node)) for n in inner):
      return None
    self.opaque_inner = set(inner)
    self.free = tuple(free)
    self.stack.append(node)
    saved_opaque = self.opaque
    self.opaque = self.opaque | {fi.qual}
    if part is not None:
      self.parts = [part] if isinstance(part[0], str) else list(part)
      self.part, self.part_frame = self.parts[0], frame
      self.part_syms = part_syms if part_syms is not None else {}
      if self.part[0] == 'flow':
        return self.flow_summary(node, frame, st)
      if self.part[0] == 'step':
        self.flow_setup(node, frame)
      try:
        self.exec_function_body(node, frame, st)
      except PartDone as e:
        return e.term
      return None
    outs = self.exec_function_body(node, frame, st)
    self.opaque = saved_opaque
    self.stack.pop()
    return self.outcome_term(outs)

  # ------------------------------------------------- parts of a function
  def flow_summary(self, node, frame, st):
    """The function with its top-level loops as events that leave their variables unknown."""
    self.flow_setup(node, frame)
    self.part_frame = None
    return self.outcome_term(self.exec_function_body(node, frame, st))

  def flow_setup(self, node, frame):
    shape = tuple(tuple(sorted(flow_names(node, x))) for x in top_loops(node))
    want = self.part_syms.setdefault('shape', shape)
    if len(want) == len(shape) and all(set(x) <= set(y) for x, y in zip(shape, want)):
      names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {x.arg for x in node.args.args}
      shape = tuple(tuple(n for n in y if n in x or n in names) for x, y in zip(shape, want))
    if want != shape:
      raise Abort('other loops or carried variables: %s / %s' % (want, shape))
    self.flow_frame = frame

  def inner_summary(self, s, st, frame):
    """Summary of nested function s, its free variables as evaluated so far."""
    self.part_node = s
    st.cells[('v', frame.fid, s.name)] = self.make_closure(s, frame)
    # later definitions of the same block are visible at call time
    for x in frame.node.body:
      if isinstance(x, ast.FunctionDef) and x is not s and ('v', frame.fid, x.name) not in st.cells:
        st.cells[('v', frame.fid, x.name)] = self.make_closure(x, frame)
    fr = self.new_frame(frame, frame.module, s, frame.cls)
    x = st.fork()
    self.set_free(x, frame)
    for i, (name, kind, d, ann) in enumerate(self.param_list(s)):
      v = self.part_syms.get(i)
      if v is None:
        v = tm.sym('$in.' + name, cd.resolve_ann(ann, frame.module) if ann is not None else None)
        self.part_syms[i] = v
      x.cells[('v', fr.fid, name)] = v
    self.stack.append(s)
    if len(self.parts) > 1:
      self.parts = self.parts[1:]
      self.part, self.part_frame = self.parts[0], fr
      if self.part[0] == 'flow':
        raise PartDone(self.flow_summary(s, fr, x))
      if self.part[0] == 'step':
        self.flow_setup(s, fr)
      self.exec_function_body(s, fr, x)
      return
    self.part_frame = None
    t = self.outcome_term(self.exec_function_body(s, fr, x))
    raise PartDone(t)

  def set_free(self, x, frame):
    """Shared variables of nested functions hold anything."""
    if not self.free:
      return
    for n in self.free:
      k = ('v', frame.fid, n)
      if k not in x.cells:
        raise Abort('no shared variable ' + n)
      sy = self.part_syms.get(('free', n))
      if sy is None:
        sy = tm.sym('$free.' + n, self.ref_type(x.cells[k], x))
        self.part_syms[('free', n)] = sy
      x.cells[k] = sy
    self.free_frame = frame

  def shared_call(self, t, st, node=None, parent=None):
    """A call of a nested function that changes shared variables: an event."""
    changed = [n for n in self.free if n in shared_changes(node, parent)] if node is not None else []
    if self.free_frame is None and not changed:
      return t
    snap = [(T('cell', 'v', const(n)), self.reify(st.cells[('v', parent.fid, n)], st)) for n in changed
            if ('v', parent.fid, n) in st.cells and not str(st.cells[('v', parent.fid, n)]).startswith('$free.')]
    for k, v in st.cells.items():
      if k[0] in ('a', 'c') and any(f.op == 'sym' and str(f.args[0]).startswith('$free.') for f in tm.frees(k[1])) and v is not default_cell(k):
        rs = {f for f in tm.frees(v) if f.op == 'ref'}
        snap.append((T('cell', k[0], T('attr', k[1], k[2]) if k[0] == 'a' else k[1]), tm.subst(v, {f: const('object') for f in rs})))
    snap.sort(key=lambda kv: tm.show(kv[0]))
    cur = st.cells.get(('ev',), tm.lst(()))
    e = T('call', t.args[0], t.args[1] + (T('post', tuple(snap)),), ())
    st.cells[('ev',)] = tm.lst(tm.lst_segs(cur) + (T('e', e),))
    if changed:
      ver = st.cells.get(('ver',), 0) + 1
      st.cells[('ver',)] = ver
      t = T('call', t.args[0], t.args[1] + (const(ver),), ())
      for n in changed:
        k = ('v', parent.fid, n)
        old = st.cells.get(k)
        if old is None:
          continue
        new = tm.sym('$free.%s@%d' % (n, ver), self.ref_type(old, st))
        for k2, v2 in list(st.cells.items()):
          if k2[0] == 'v' and v2 is old:
            st.cells[k2] = new
    return t

  def scope(self, frame):
    """The function of a frame, or the loop body being looked into."""
    if self.inner_scope is not None and self.inner_scope[0] is frame:
      return self.inner_scope[1]
    return frame.node

  def enter_loop(self, s, x, frame):
    """Continues with a piece of this loop's body."""
    node = ast.FunctionDef(name='', args=ast.arguments(
        posonlyargs=[], args=[ast.arg(arg=k[2]) for k in sorted((k for k in x.cells if k[0] == 'v' and k[1] == frame.fid), key=str)],
        kwonlyargs=[], kw_defaults=[], defaults=[]), body=s.body, decorator_list=[])
    self.inner_scope = (frame, node)
    self.parts = self.parts[1:]
    self.part, self.part_frame = self.parts[0], frame
    self.part_syms = self.part_syms.setdefault(('scope',), {})
    self.mark += "'"
    self.flow_setup(node, frame)
    if self.part[0] == 'flow':
      self.part_frame = None

  def is_part_loop(self, s, frame):
    if frame is not self.part_frame or not self.part or self.part[0] not in ('loop', 'step'):
      return False
    ls = top_loops(self.scope(frame))
    return self.part[1] < len(ls) and ls[self.part[1]] is s

  def skip_loop(self, s, st, frame):
    """A top-level loop in flow mode: an event, after which its variables are unknown."""
    k = top_loops(self.scope(frame)).index(s)
    args = []
    carried = self.part_syms['shape'][k]
    cur = st.cells.get(('ev',), tm.lst(()))
    st.cells[("ev",)] = tm.lst(tm.lst_segs(cur) + (T('e', T('call', T('func', 'loop:%d' % k), tuple(args), ())),))
    for n in carried:
      key = ('v', frame.fid, n)
      ty = self.ref_type(st.cells[key], st) if key in st.cells else None
      sy = self.part_syms.setdefault((k, n), tm.sym('$%s%s.%d' % (n, self.mark, k), ty))
      if k in self.options.get('lost', ()) and len(self.mark) == self.options.get('depth', 0):
        sy = T('top', '%s after loop %d of the %s' % (n, k, self.options.get('side')))
      st.cells[key] = sy
    self.set_free(st, frame)
    y = ('y', frame.fid)
    if y in st.cells:
      st.cells[y] = tm.lst(tm.lst_segs(st.cells[y]) + (T('x', tm.sym('$yields%s.%d' % (self.mark, k), ('seq', None))),))
    return [(TRUE, 'next', None, st)]

  def loop_part(self, s, st, frame):
    """The loop as: what it iterates over, entry state, one step, and what follows."""
    carried = set(carried_names(frame.node, s))
    within = self.scope(frame) is not frame.node
    # a variable the reference updates but this loop leaves alone
    carried |= {n for n in self.part_syms if isinstance(n, str) and ('v', frame.fid, n) in st.cells}
    fields = []
    mem = {}
    it = self.ev(s.iter, st, frame) if isinstance(s, ast.For) else None
    if it is not None:
      fields.append(('iterable', self.reify(it, st)))
    x = st.fork()
    for n in self.free:
      if ('v', frame.fid, n) in st.cells:
        fields.append(('initially ' + n, self.reify(st.cells[('v', frame.fid, n)], st)))
    self.set_free(x, frame)
    for n in sorted(carried - set(self.free)):
      k = ('v', frame.fid, n)
      if k not in st.cells:
        continue
      v = st.cells[k]
      held = st.cells.get(('c', v))
      fields.append(('initially ' + n, self.reify(v if held is None or v.op in ('ref', 'clo') else held, st)))
      sy = self.part_syms.get(n)
      if sy is None:
        ty = cd.resolve_ann(ann_of(frame.node, n), frame.module) if ann_of(frame.node, n) is not None else self.ref_type(v, st)
        sy = tm.sym('$' + n + self.mark, ty)
        self.part_syms[n] = sy
      # a flag that ends the loop once it is set is still unset when a step starts
      # (initially so, and every step that goes on leaves it so: both are compared)
      x.cells[k] = const(False) if n in self.options.get('unset', ()) else sy
      mem[n] = k
      if v.op == 'ref' and isinstance(self.kind(v), tuple):
        # other names of the object the loop starts from
        for k2, v2 in st.cells.items():
          if k2[0] == 'v' and v2 is v and k2[2] not in carried:
            x.cells[k2] = tm.sym('$start.' + n + self.mark, sy.args[1])
    self.part_frame = None
    # variables the reference does not look at once the loop is over
    dead = self.part_syms.setdefault(('dead',), {n for n in carried if not within and not read_later(frame.node, s, n)})
    anyelem = self.options.get('generic') and it is not None and len(self.parts) > 1 and self.parts[-1][0] != 'flow'
    etype = None
    if it is not None and not anyelem:
      iv = self.reify(it, st)
      if iv.op == 'lst' and len(iv.args[0]) > 1 and all(g.op == 'e' for g in iv.args[0]):
        # listed one by one: the step for any of them
        anyelem = True
        ts = {cd.type_of(g.args[0]) for g in iv.args[0]}
        etype = ts.pop() if len(ts) == 1 else None
    if len(self.parts) > 1:
      self.enter_loop(s, x, frame)
    ykey = ('y', frame.fid)
    if ykey in x.cells:
      x.cells[ykey] = tm.lst(())
    base = dict(x.cells)

    def body(y, elem=None):
      if elem is not None:
        self.assign(s.target, elem, y, frame)
        return self.exec_block(s.body, y, frame)
      c = self.truth_of(self.ev(s.test, y, frame), y)
      return self.branch(c, y, lambda w: self.exec_block(s.body, w, frame), lambda w: [(TRUE, 'brk', None, w)])

    steps = []

    def grab(y, *elem):
      outs = body(y, *elem)
      items = []
      for c, sig, val, z in outs:
        if sig == 'brk' and not within and frame.node.body[-1] is s and not s.orelse:
          sig, val = 'ret', NONE
        if sig == 'raise':
          leaf = T('raise', val)
        else:
          vals = tuple(('next ' + n, const('unused') if sig == 'brk' and n in dead and z.cells[k].op != 'ref'
                        else self.reify(z.cells[k], z)) for n, k in sorted(mem.items()))
          leaf = T('rec', 'step', (('signal', const({'cont': 'next'}.get(sig, sig))),) +
                   ((('value', self.reify(val, z)),) if sig == 'ret' else vals) +
                   ((('yields', self.reify(z.cells[ykey], z)),) if ykey in z.cells else ()) + (('effects', self.post_term(z)),))
        items.append((c, leaf))
      t = items[-1][1]
      for c, leaf in reversed(items[:-1]):
        t = ite(c, leaf, t)
      steps.append(t)
      raise GrabDone()

    self.grabbing = it is not None and not anyelem
    self.own, self.count = len(self.ranges), None
    try:
      if anyelem:
        grab(x.fork(), tm.sym('$element' + self.mark, etype))
      elif it is not None:
        self.run_iter(it, x.fork(), grab)
      else:
        grab(x.fork())
    except GrabDone:
      pass
    self.grabbing = False
    if len(steps) != 1:
      raise Abort('loop step not reached')
    fields.append(('step', steps[0]))
    if self.options.get('generic') and it is not None:
      # the step for an arbitrary element
      del steps[:]
      try:
        grab(x.fork(), tm.sym('$element' + self.mark, None))
      except GrabDone:
        pass
      fields.append(('generic', steps[0]))
    if self.part[0] == 'step' or self.inner_scope is not None:
      raise PartDone(T('rec', 'loop', tuple(fields)))
    rest = frame.node.body[frame.node.body.index(s) + 1:]
    y = x.fork()
    outs = self.exec_block(rest, y, frame)
    outs = [(c, 'ret' if sig == 'next' else sig, NONE if sig == 'next' else v, z) for c, sig, v, z in outs]
    fields.append(('after', self.outcome_term(outs)))
    raise PartDone(T('rec', 'loop', tuple(fields)))

  def ref_type(self, v, st):
    if v.op == 'ref' and isinstance(self.kind(v), tuple):
      return ('cls', self.kind(v)[1].qual)
    return cd.type_of(self.content(v, st))

  def outcome_term(self, outs):
    items = []
    for c, sig, val, s in outs:
      if sig == 'ret':
        leaf = T('ret', self.reify(val, s), self.post_term(s))
      elif sig == 'raise':
        leaf = T('raise', val)
      else:
        raise Abort('signal ' + sig)
      items.append((c, leaf))
    if not items:
      return T('diverges')
    t = items[-1][1]
    for c, leaf in reversed(items[:-1]):
      t = ite(c, leaf, t)
    return t

  def post_term(self, s):
    """Caller-visible final contents, as a sorted tuple of (cell, value)."""
    out = []
    for k, v in s.cells.items():
      if k[0] in ('a', 'c'):
        base = k[1]
        if any(f.op in ('ref', 'clo') for f in tm.frees(base)):
          continue
        if k[0] == 'c' and call_rooted(base):
          continue   # the result of an uninterpreted call is a value of its own
        if v is default_cell(k):
          continue
        rv = self.reify(v, s)
        if rv is default_cell(k):
          continue
        cell = T('attr', base, k[2]) if k[0] == 'a' else base
        out.append((T('cell', k[0], cell), rv))
      elif k[0] == 'v' and self.free_frame is not None and k[1] == self.free_frame.fid and k[2] in self.free:
        out.append((T('cell', 'free', const(k[2])), self.reify(v, s)))
      elif k[0] == 'ev':
        rv = self.reify(v, s)
        if rv.args[0]:
          out.append((T('cell', 'ev', NONE), rv))
    out.sort(key=lambda kv: tm.show(kv[0]))
    return T('post', tuple(out))

  # ---------------------------------------------------------------- functions
  def param_list(self, node):
    a = node.args
    out = []
    pos = a.posonlyargs + a.args
    nd = len(a.defaults)
    for i, p in enumerate(pos):
      d = a.defaults[i - (len(pos) - nd)] if i >= len(pos) - nd else None
      out.append((p.arg, 'pos', d, p.annotation))
    if a.vararg:
      out.append((a.vararg.arg, 'vararg', None, None))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
      out.append((p.arg, 'kw', d, p.annotation))
    if a.kwarg:
      out.append((a.kwarg.arg, 'kwarg', None, None))
    return out

  def exec_function_body(self, node, frame, st):
    """Outcomes with signals ret/raise."""
    if isinstance(node, ast.Lambda):
      v = self.ev(node.body, st, frame)
      outs = []
      alive = TRUE
      for c, e in st.exits:
        outs.append((c, 'raise', e, st))
        alive = and_(not_(c), alive)
      st2 = st.fork()
      outs.append((alive, 'ret', v, st2))
      return outs
    gen = has_yield(node) and frame.ctx_hook is None
    if gen:
      st.cells[('y', frame.fid)] = tm.lst(())
    outs = self.exec_block(node.body, st, frame)
    res = []
    for c, sig, val, s in outs:
      if sig == 'next':
        v = NONE
      elif sig == 'ret':
        v = val
      elif sig == 'raise':
        res.append((c, sig, val, s))
        continue
      else:
        raise Abort('stray ' + sig)
      if gen:
        v = self.alloc_list(s, s.cells.pop(('y', frame.fid)))
      res.append((c, 'ret', v, s))
    return res

  # ---------------------------------------------------------------- statements
  def exec_block(self, stmts, st, frame):
    """Runs a statement list; returns outcomes [(relcond, sig, val, state)]."""
    done = []
    cond = TRUE
    cur = st
    for i, s in enumerate(stmts):
      self.tick()
      outs = self.exec_stmt(s, cur, frame)
      nexts = []
      for c, sig, val, s2 in outs:
        cc = and_(cond, c)
        if cc is FALSE:
          continue
        if sig == 'next':
          nexts.append((c, s2))
        else:
          done.append((cc, sig, val, s2))
      if not nexts:
        return done
      if len(nexts) == 1:
        c, cur = nexts[0]
      else:
        c, cur = merge_many(nexts, cur.facts if cur is not None else st.facts)
      cond = and_(cond, c)
    done.append((cond, 'next', None, cur))
    return done

  def simple(self, st, extra=None):
    """Outcome list for a straight-line statement, honouring pending exits."""
    outs = []
    if not st.exits:
      return [(TRUE, 'next', None, st)]
    alive = TRUE
    for c, e in st.exits:
      outs.append((and_(alive, c), 'raise', e, st))
      alive = and_(alive, not_(c))
    st2 = st.fork()
    if alive is not FALSE:
      f = st2.facts.assume(alive)
      if f is not None:
        st2.facts = f
        outs.append((alive, 'next', None, st2))
    return outs

  def after(self, st, fn):
    """After evaluating an expression: continue with fn(state) on the non-raising part."""
    outs = []
    for c, sig, val, s in self.simple(st):
      if sig == 'next':
        for c2, sig2, v2, s2 in fn(s):
          outs.append((and_(c, c2), sig2, v2, s2))
      else:
        outs.append((c, sig, val, s))
    return outs

  def exec_stmt(self, s, st, frame):
    m = getattr(self, 'st_' + type(s).__name__, None)
    if m is None:
      raise Abort('statement ' + type(s).__name__)
    return m(s, st, frame)

  def st_Pass(self, s, st, frame):
    return [(TRUE, 'next', None, st)]

  def st_Expr(self, s, st, frame):
    if isinstance(s.value, ast.Constant):
      return [(TRUE, 'next', None, st)]
    if isinstance(s.value, ast.Yield) and frame.ctx_hook is not None:
      hook = frame.ctx_hook
      v = NONE if s.value.value is None else self.ev(s.value.value, st, frame)
      return hook(st, v)
    v = self.ev(s.value, st, frame)
    if v.op == 'call' and v.args[0].op == 'func' and v.args[0].args[0] not in self.options.get('logged', ()):
      # the effect of an uninterpreted function of the repository
      cur = st.cells.get(('ev',), tm.lst(()))
      st.cells[("ev",)] = tm.lst(tm.lst_segs(cur) + (T('e', v),))
    return self.simple(st)

  def st_Import(self, s, st, frame):
    for a in s.names:
      st.cells[('v', frame.fid, (a.asname or a.name).split('.')[0])] = self.global_dotted(
          a.name if a.asname else a.name.split('.')[0])
    return [(TRUE, 'next', None, st)]

  def st_ImportFrom(self, s, st, frame):
    for a in s.names:
      st.cells[('v', frame.fid, a.asname or a.name)] = self.global_dotted((s.module or '') + '.' + a.name)
    return [(TRUE, 'next', None, st)]

  def st_Global(self, s, st, frame):
    return [(TRUE, 'next', None, st)]

  st_Nonlocal = st_Global

  def st_Return(self, s, st, frame):
    v = NONE if s.value is None else self.ev(s.value, st, frame)
    return self.after(st, lambda x: [(TRUE, 'ret', v, x)])

  def st_Break(self, s, st, frame):
    return [(TRUE, 'brk', None, st)]

  def st_Continue(self, s, st, frame):
    return [(TRUE, 'cont', None, st)]

  def st_Raise(self, s, st, frame):
    name = 'reraise'
    if s.exc is not None:
      n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
      name = (dotted(n) or 'Exception').split('.')[-1]
      if isinstance(n, ast.Name):
        # re-raise of a caught exception variable
        v = self.lookup_local(n.id, st, frame)
        if v is not None and v.op == 'exc':
          name = v.args[0]
    return [(TRUE, 'raise', T('exc', name), st)]

  def st_Assert(self, s, st, frame):
    v = self.ev(s.test, st, frame)
    c = self.truth_of(v, st)

    def fn(x):
      if c is TRUE:
        return [(TRUE, 'next', None, x)]
      outs = []
      f = x.facts.assume(c)
      if (self.fix_depth or self.loop_depth or opaque_cond(c) or self.options.get('assumed')) and f is not None:
        # internal invariants of loops and recursions are taken as assumptions
        x.facts = f
        return [(TRUE, 'next', None, x)]
      outs.append((not_(c), 'raise', T('exc', 'AssertionError'), x))
      if f is not None:
        y = x.fork()
        y.facts = f
        outs.append((c, 'next', None, y))
      return outs

    return self.after(st, fn)

  def st_FunctionDef(self, s, st, frame):
    if frame is self.part_frame and self.part[0] == 'inner' and self.part[1] in (s.name, def_name(frame.node, s)):
      self.inner_summary(s, st, frame)
    v = self.make_closure(s, frame)
    for d in s.decorator_list:
      name = (dotted(d.func if isinstance(d, ast.Call) else d) or '').split('.')[-1]
      if name == 'contextmanager':
        pass
    st.cells[('v', frame.fid, s.name)] = v
    return [(TRUE, 'next', None, st)]

  st_AsyncFunctionDef = st_FunctionDef

  def make_closure(self, node, frame):
    t = T('clo', len(self.closures) + 1)
    self.closures[t] = Closure(node, frame, frame.module, frame.cls)
    return t

  def st_ClassDef(self, s, st, frame):
    st.cells[('v', frame.fid, s.name)] = tm.top('local class')
    return [(TRUE, 'next', None, st)]

  def st_Delete(self, s, st, frame):
    for t in s.targets:
      if isinstance(t, ast.Name):
        st.cells.pop(('v', frame.fid, t.id), None)
      elif isinstance(t, ast.Subscript):
        b = self.ev(t.value, st, frame)
        i = self.ev_slice(t.slice, st, frame)
        self.event(b, T('del', self.reify(i, st)), st)
      else:
        self.event(self.ev(t.value, st, frame), T('delattr', t.attr), st)
    return self.simple(st)

  def st_Assign(self, s, st, frame):
    v = self.ev(s.value, st, frame)

    def fn(x):
      for t in s.targets:
        self.assign(t, v, x, frame)
      return self.simple(x)

    return self.after(st, fn)

  def st_AnnAssign(self, s, st, frame):
    if s.value is None:
      return [(TRUE, 'next', None, st)]
    v = self.ev(s.value, st, frame)
    return self.after(st, lambda x: (self.assign(s.target, v, x, frame), self.simple(x))[1])

  def st_AugAssign(self, s, st, frame):
    load = _as_load(s.target)
    a = self.ev(load, st, frame)
    b = self.ev(s.value, st, frame)
    if isinstance(s.op, ast.Add) and a.op == 'ref' and self.kind(a) == 'list':
      self.list_extend(a, b, st)
      return self.simple(st)
    if isinstance(s.op, (ast.BitOr,)) and a.op == 'ref' and self.kind(a) in ('set', 'dict'):
      self.call_method(a, 'update', [b], [], st)
      return self.simple(st)
    v = self.binop(s.op, a, b, st)
    return self.after(st, lambda x: (self.assign(s.target, v, x, frame), self.simple(x))[1])

  def st_If(self, s, st, frame):
    v = self.ev(s.test, st, frame)

    def fn(x):
      c = self.truth_of(v, x)
      return self.branch(c, x, lambda y: self.exec_block(s.body, y, frame),
                         lambda y: self.exec_block(s.orelse, y, frame))

    return self.after(st, fn)

  def branch(self, c, st, f_then, f_else):
    self.tick()
    c = self.cond(c, st)
    if c is TRUE:
      return f_then(st)
    if c is FALSE:
      return f_else(st)
    self.nbranches += 1
    fa = st.facts.assume(c, True)
    fb = st.facts.assume(c, False)
    if fa is None:
      return f_else(st)
    if fb is None:
      return f_then(st)
    s1, s2 = st.fork(), st.fork()
    s1.facts, s2.facts = fa, fb
    o1 = f_then(s1)
    o2 = f_else(s2)
    outs = []
    n1 = n2 = None
    for cc, sig, val, s in o1:
      if sig == 'next':
        n1 = (cc, s) if n1 is None else merge_many([n1, (cc, s)], fa)
      else:
        outs.append((and_(c, cc), sig, val, s))
    for cc, sig, val, s in o2:
      if sig == 'next':
        n2 = (cc, s) if n2 is None else merge_many([n2, (cc, s)], fb)
      else:
        outs.append((and_(not_(c), cc), sig, val, s))
    if n1 and n2:
      m = merge_states(c, n1[1], n2[1], st.facts)
      d = ite(c, n1[0], n2[0])
      if d is not TRUE:
        f = m.facts.assume(d)
        if f is not None:
          m.facts = f
      outs.append((d, 'next', None, m))
    elif n1:
      outs.append((and_(c, n1[0]), 'next', None, n1[1]))
    elif n2:
      outs.append((and_(not_(c), n2[0]), 'next', None, n2[1]))
    return outs

  def st_For(self, s, st, frame):
    if frame is self.flow_frame and s in top_loops(self.scope(frame)) and not self.is_part_loop(s, frame):
      return self.after(st, lambda x: self.skip_loop(s, x, frame))
    if self.is_part_loop(s, frame):
      self.loop_part(s, st, frame)
    it = self.ev(s.iter, st, frame)

    def fn(x):
      def body(y, elem):
        self.assign(s.target, elem, y, frame)
        return self.exec_block(s.body, y, frame)
      outs = self.run_iter(it, x, body)
      if s.orelse:
        res = []
        for c, sig, val, y in outs:
          if sig == 'next':
            for c2, sg, v2, y2 in self.exec_block(s.orelse, y, frame):
              res.append((and_(c, c2), sg, v2, y2))
          elif sig == 'brk':
            res.append((c, 'next', None, y))
          else:
            res.append((c, sig, val, y))
        return res
      return [(c, 'next' if sig == 'brk' else sig, val, y) for c, sig, val, y in outs]

    return self.after(st, fn)

  def st_While(self, s, st, frame):
    if frame is self.flow_frame and s in top_loops(self.scope(frame)) and not self.is_part_loop(s, frame):
      return self.after(st, lambda x: self.skip_loop(s, x, frame))
    if self.is_part_loop(s, frame):
      self.loop_part(s, st, frame)
    def body(y):
      v = self.ev(s.test, y, frame)

      def fn(z):
        c = self.truth_of(v, z)
        return self.branch(c, z, lambda w: self.exec_block(s.body, w, frame),
                           lambda w: [(TRUE, 'brk', 'test', w)])

      return self.after(y, fn)

    few = False
    if isinstance(s.test, ast.Compare) and cd.SIZE[0] is None:
      # a test that is decided from the start, over a list that is written out
      y = st.fork()
      few = self.truth_of(self.ev(s.test, y, frame), y) is TRUE and not y.exits
    outs = self.run_while(body, st, few)
    if s.orelse:
      raise Abort('while-else')
    return [(c, 'next' if sig == 'brk' else sig, val, y) for c, sig, val, y in outs]

  def st_With(self, s, st, frame):
    return self.with_items(s.items, s.body, st, frame)

  def with_items(self, items, body, st, frame):
    if not items:
      return self.exec_block(body, st, frame)
    it = items[0]
    rest = items[1:]

    def inner(y, val):
      if it.optional_vars is not None:
        self.assign(it.optional_vars, val, y, frame)
      return self.with_items(rest, body, y, frame)

    e = it.context_expr
    if isinstance(e, ast.Call):
      r = self.try_contextmanager(e, inner, st, frame)
      if r is not None:
        return r
    v = self.ev(e, st, frame)
    return self.after(st, lambda y: inner(y, T('enter', self.reify(v, y))))

  def st_Try(self, s, st, frame):
    base = st.fork()
    outs = self.exec_block(s.body, st, frame)
    res = []
    for c, sig, val, y in outs:
      if sig == 'raise' and self.handler_for(s, val) is not None:
        h = self.handler_for(s, val)
        z = y.fork()
        if h.name:
          z.cells[('v', frame.fid, h.name)] = val
        for c2, sg, v2, y2 in self.exec_block(h.body, z, frame):
          res.append((and_(c, c2), sg, v2, y2))
      elif sig == 'next' and s.orelse:
        for c2, sg, v2, y2 in self.exec_block(s.orelse, y, frame):
          res.append((and_(c, c2), sg, v2, y2))
      else:
        res.append((c, sig, val, y))
    # implicit exceptions of the body: an opaque flag per handler
    for h in s.handlers:
      name = self.handler_names(h)
      flag = T('truthy', T('excflag', name, self.exc_key(s.body, base, frame)))
      z = base.fork()
      f = z.facts.assume(flag)
      if f is None:
        continue
      z.facts = f
      if h.name:
        z.cells[('v', frame.fid, h.name)] = T('exc', name[0])
      hres = []
      for c2, sg, v2, y2 in self.exec_block(h.body, z, frame):
        hres.append((and_(flag, c2), sg, v2, y2))
      res = hres + [(and_(not_(flag), c), sg, v, y) for c, sg, v, y in res]
    if s.finalbody:
      fin = []
      for c, sig, val, y in res:
        for c2, sg, v2, y2 in self.exec_block(s.finalbody, y, frame):
          if sg == 'next':
            fin.append((and_(c, c2), sig, val, y2))
          else:
            fin.append((and_(c, c2), sg, v2, y2))
      res = fin
    # merge several next outcomes
    nexts = [(c, y) for c, sig, v, y in res if sig == 'next']
    if len(nexts) > 1:
      c, y = merge_many(nexts, base.facts)
      res = [o for o in res if o[1] != 'next'] + [(c, 'next', None, y)]
    return res

  def exc_key(self, body, st, frame):
    """Key of an implicit exception: the value of the guarded expression."""
    try:
      s = st.fork()
      vals = []
      for b in body[:1]:
        if isinstance(b, (ast.Assign, ast.Return, ast.Expr, ast.AnnAssign)) and b.value is not None:
          vals.append(self.reify(self.ev(b.value, s, frame), s))
      return T('tup', tuple(vals))
    except Abort:
      return T('tup', ())

  def handler_names(self, h):
    if h.type is None:
      return ('Exception',)
    if isinstance(h.type, ast.Tuple):
      return tuple((dotted(e) or '?').split('.')[-1] for e in h.type.elts)
    return ((dotted(h.type) or '?').split('.')[-1],)

  def handler_for(self, s, exc):
    for h in s.handlers:
      names = self.handler_names(h)
      if exc.args[0] in names or 'Exception' in names or 'BaseException' in names:
        return h
    return None

  def st_Match(self, s, st, frame):
    subj = self.ev(s.subject, st, frame)

    def rec(cases, x):
      if not cases:
        return [(TRUE, 'next', None, x)]
      cs = cases[0]
      c, binds = self.pattern(cs.pattern, subj, x, frame)

      def then(y):
        for n, v in binds:
          self.store_name(n, v, y, frame)
        if cs.guard is not None:
          g = self.truth_of(self.ev(cs.guard, y, frame), y)
          return self.branch(g, y, lambda z: self.exec_block(cs.body, z, frame),
                             lambda z: rec(cases[1:], z))
        return self.exec_block(cs.body, y, frame)

      return self.branch(c, x, then, lambda y: rec(cases[1:], y))

    return self.after(st, lambda x: rec(s.cases, x))

  def pattern(self, p, v, st, frame):
    if isinstance(p, ast.MatchAs):
      if p.pattern is None:
        return TRUE, ([(p.name, v)] if p.name else [])
      c, b = self.pattern(p.pattern, v, st, frame)
      return c, b + ([(p.name, v)] if p.name else [])
    if isinstance(p, ast.MatchValue):
      return cd.eq(self.content(v, st), self.ev(p.value, st, frame)), []
    if isinstance(p, ast.MatchSingleton):
      return cd.eq(v, const(p.value)), []
    if isinstance(p, ast.MatchOr):
      c = FALSE
      for q in p.patterns:
        c2, b = self.pattern(q, v, st, frame)
        if b:
          raise Abort('or-pattern with bindings')
        c = or_(c, c2)
      return c, []
    if isinstance(p, ast.MatchClass):
      cls = self.ev(p.cls, st, frame)
      c = self.isinstance_cond(v, cls, st)
      binds = []
      for n, q in zip(p.kwd_attrs, p.kwd_patterns):
        c2, b = self.pattern(q, self.get_attr(v, n, st), st, frame)
        c = and_(c, c2)
        binds += b
      if p.patterns:
        ci = cd.cls_of(cls.args[0]) if cls.op == 'cls' else None
        if ci is None:
          raise Abort('positional class pattern')
        fs = [f[0] for f in self.repo.all_fields(ci)]
        for n, q in zip(fs, p.patterns):
          c2, b = self.pattern(q, self.get_attr(v, n, st), st, frame)
          c = and_(c, c2)
          binds += b
      return c, binds
    if isinstance(p, ast.MatchSequence):
      vv = self.content(v, st)
      if any(isinstance(q, ast.MatchStar) for q in p.patterns):
        raise Abort('star pattern')
      c = cd.eq(cd.length(vv), const(len(p.patterns)))
      binds = []
      for i, q in enumerate(p.patterns):
        c2, b = self.pattern(q, so.mk_item(vv, const(i)), st, frame)
        c = and_(c, c2)
        binds += b
      return c, binds
    raise Abort('pattern ' + type(p).__name__)

  # --------------------------------------------------------------- assignment
  def store_name(self, name, v, st, frame):
    f = frame
    if name in frame.nonlocals:
      f = frame.parent
      while f is not None and name not in f.locals:
        f = f.parent
      if f is None:
        st.cells[('g', frame.module.name, name)] = v
        return
    elif name not in frame.locals and frame.node is not None and isinstance(frame.node, (ast.FunctionDef, ast.Lambda)):
      # comprehension / global variable
      if name in local_names(frame.node)[2]:
        st.cells[('g', frame.module.name, name)] = v
        return
    st.cells[('v', f.fid, name)] = v

  def assign(self, t, v, st, frame):
    if isinstance(t, ast.Name):
      self.store_name(t.id, v, st, frame)
    elif isinstance(t, (ast.Tuple, ast.List)):
      vv = self.content(v, st)
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      n = len(t.elts)
      if star:
        k = star[0]
        for i, e in enumerate(t.elts):
          if i < k:
            self.assign(e, self.get_item(vv, const(i), st), st, frame)
          elif i == k:
            hi = NONE if k == n - 1 else const(k - n + 1)
            self.assign(e.value, so.mk_slice(vv, const(k), hi), st, frame)
          else:
            self.assign(e, self.get_item(vv, const(i - n), st), st, frame)
        return
      for i, e in enumerate(t.elts):
        self.assign(e, self.get_item(vv, const(i), st), st, frame)
    elif isinstance(t, ast.Attribute):
      b = self.ev(t.value, st, frame)
      self.set_attr(b, t.attr, v, st)
    elif isinstance(t, ast.Subscript):
      b = self.ev(t.value, st, frame)
      i = self.ev_slice(t.slice, st, frame)
      self.set_item(b, i, v, st)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v, st, frame)
    else:
      raise Abort('assign target')

  def set_attr(self, b, name, v, st):
    if b.op == 'ite':
      c = self.cond(b.args[0], st)
      self.split(c, st, lambda x: self.set_attr(b.args[1], name, v, x),
                 lambda x: self.set_attr(b.args[2], name, v, x))
      return
    if b.op == 'ref':
      st.cells[('f', b, name)] = v
    else:
      st.cells[('a', b, name)] = v

  def split(self, c, st, f1, f2):
    """Runs two effects under c / not c, merging into st; returns merged value."""
    if c is TRUE:
      return f1(st)
    if c is FALSE:
      return f2(st)
    fa, fb = st.facts.assume(c, True), st.facts.assume(c, False)
    if fa is None:
      return f2(st)
    if fb is None:
      return f1(st)
    s1, s2 = st.fork(), st.fork()
    s1.facts, s2.facts = fa, fb
    v1 = f1(s1)
    v2 = f2(s2)
    d1 = self.dead_all(s1)
    d2 = self.dead_all(s2)
    if d1 and not d2:
      st.cells = s2.cells
    elif d2 and not d1:
      st.cells = s1.cells
    else:
      st.cells = merge_cells(c, s1, s2)
    for cc, e in s1.exits:
      st.exits.append((and_(c, cc), e))
    for cc, e in s2.exits:
      st.exits.append((and_(not_(c), cc), e))
    if d1 and not d2:
      return v2
    if d2 and not d1:
      return v1
    if v1 is None or v2 is None:
      return v1 if v2 is None else v2
    return merge_val(c, v1, v2)

  def dead_all(self, s):
    return any(c is TRUE for c, e in s.exits)

  def set_item(self, b, i, v, st):
    if b.op == 'ite':
      c = self.cond(b.args[0], st)
      self.split(c, st, lambda x: self.set_item(b.args[1], i, v, x),
                 lambda x: self.set_item(b.args[2], i, v, x))
      return
    if b.op == 'ref':
      cur = st.cells.get(('o', b), UNDEF)
      if cur.op == 'dct':
        # overwrite an existing equal constant key in place
        segs = list(cur.args[0])
        for k, s in enumerate(segs):
          if s.op == 'e' and s.args[0].args[0] is i and all(
              q.op == 'e' and cd.eq(q.args[0].args[0], i) is FALSE for q in segs[k + 1:]):
            segs[k] = T('e', T('kv', i, v))
            st.cells[('o', b)] = tm.dct(tuple(segs))
            return
        st.cells[('o', b)] = tm.dct(cur.args[0] + (T('e', T('kv', i, v)),))
        return
      if cur.op == 'lst' and tm.is_num(i):
        k = int(tm.num(i))
        segs = list(cur.args[0])
        if k < 0:
          if -k <= len(segs) and all(s.op == 'e' for s in segs[k:]):
            segs[k] = T('e', v)
            st.cells[('o', b)] = tm.lst(tuple(segs))
            return
        elif k < len(segs) and all(s.op == 'e' for s in segs[:k + 1]):
          segs[k] = T('e', v)
          st.cells[('o', b)] = tm.lst(tuple(segs))
          return
      st.cells[('o', b)] = T('store', cur, i, v)
      return
    cur = st.cells.get(('c', b), b)
    st.cells[('c', b)] = T('store', cur, i, v)

  def event(self, b, ev, st):
    """Record an opaque effect on object b."""
    if b.op == 'ref' and self.kind(b) in ('list', 'dict', 'set', 'array'):
      cur = st.cells.get(('o', b), UNDEF)
      st.cells[('o', b)] = T('mut', cur, ev)
      return
    if b.op == 'ref':
      cur = st.cells.get(('f', b, '#events'), tm.lst(()))
      st.cells[('f', b, '#events')] = tm.lst(cur.args[0] + (T('e', ev),))
      return
    cur = st.cells.get(('c', b), b)
    segs = cur.args[0] if cur.op == 'lst' else (T('x', cur),)
    st.cells[('c', b)] = tm.lst(segs + (T('e', ev),))


def _as_load(t):
  import copy
  n = copy.copy(t)
  n.ctx = ast.Load()
  return n

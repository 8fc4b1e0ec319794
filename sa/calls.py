"""Calls: inlining, constructors, builtins, library models, recursion."""
import ast
from . import terms as tm
from . import conds as cd
from . import seqops as so
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const, ite, and_, or_, not_
from .state import State, UNDEF, merge_val, merge_many
from .repo import dotted
from .errors import Abort

# external functions that are the identity on their first argument
_IDENT = {
    'numba.njit', 'numba.jit', 'numba.extending.register_jitable', 'numba.literally',
    'functools.lru_cache', 'copy.copy_identity', 'typing.cast_', 'numba.typeof_',
    'numba.typed.typedlist.ReflectedList',
}
_LIST_CTORS = {'numba.typed.List', 'collections.deque'}
_EMPTY_LIST = {'numba.typed.List.empty_list'}
_FRESH = {'numpy.' + n for n in ('zeros', 'empty', 'full', 'ones', 'copy', 'array', 'zeros_like', 'ones_like', 'full_like', 'empty_like')}
_EMPTY_DICT = {'numba.typed.Dict', 'numba.typed.Dict.empty', 'collections.OrderedDict'}
PURE_METHODS = {
    'get', 'keys', 'items', 'values', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'split',
    'splitlines', 'join', 'format', 'copy', 'index', 'count', 'find', 'rfind', 'lower', 'upper',
    'replace', 'isspace', 'isalnum', 'isalpha', 'isdigit', 'encode', 'decode', 'group', 'groups',
    'start', 'end', 'span', 'match', 'fullmatch', 'search', 'finditer', 'findall', 'sub', 'union', 'intersection',
    'difference', 'issubset', 'issuperset', 'astype', 'reshape', 'sum', 'mean', 'max', 'min', 'argmin', 'argmax',
    'tolist', 'item', 'all', 'any', 'nonzero', '_replace', '_asdict', 'title', 'isidentifier', 'rsplit',
    'partition', 'rpartition', 'expandtabs', 'zfill', 'ljust', 'rjust', 'center', 'bit_length', 'total_seconds',
    'isupper', 'islower', 'removeprefix', 'removesuffix', 'casefold', '__getitem__', 'swapcase',
}


def _chain(n):
  while isinstance(n, ast.Attribute):
    n = n.value
  return isinstance(n, ast.Name)


class CallMixin:

  # -------------------------------------------------------------------- entry
  def ev_Call(self, n, st, frame):
    self.ncalls += 1
    f = n.func
    if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
      return T('super', self.self_value(st, frame), frame_cls(frame))
    if isinstance(f, ast.Attribute):
      recv = self.ev(f.value, st, frame)
      ver = st.cells.get(('ver',), 0)
      args, kwargs = self.ev_args(n, st, frame)
      if st.cells.get(('ver',), 0) != ver and _chain(f.value):
        recv = self.ev(f.value, st, frame)  # the same object, as it is after the nested calls among the arguments
      return self.call_attr(recv, f.attr, args, kwargs, st)
    fv = self.ev(f, st, frame)
    args, kwargs = self.ev_args(n, st, frame)
    return self.call_value(fv, args, kwargs, st)

  def self_value(self, st, frame):
    f = frame
    while f is not None and not (isinstance(f.node, ast.FunctionDef) and f.cls is not None and f.parent is None):
      f = f.parent
    if f is None:
      raise Abort('super outside method')
    return st.cells[('v', f.fid, f.node.args.args[0].arg)]

  def ev_args(self, n, st, frame):
    args = []
    for a in n.args:
      if isinstance(a, ast.Starred):
        v = self.content(self.ev(a.value, st, frame), st)
        if v.op == 'lst' and all(s.op == 'e' for s in v.args[0]):
          args.extend(s.args[0] for s in v.args[0])
        else:
          ty = cd.type_of(v)
          if ty and ty[0] == 'tuple':
            args.extend(so.mk_item(v, const(i)) for i in range(len(ty[1])))
          else:
            args.append(T('star', self.reify(v, st)))
      else:
        args.append(self.ev(a, st, frame))
    kwargs = []
    for k in n.keywords:
      v = self.ev(k.value, st, frame)
      if k.arg is None:
        d = self.content(v, st)
        if d.op == 'dct' and all(s.op == 'e' and tm.is_str(s.args[0].args[0]) for s in d.args[0]):
          for s in d.args[0]:
            kwargs.append((s.args[0].args[0].args[1], s.args[0].args[1]))
        else:
          kwargs.append(('**', self.reify(d, st)))
      else:
        kwargs.append((k.arg, v))
    return args, kwargs

  def call_attr(self, recv, name, args, kwargs, st):
    if recv.op == 'ite':
      c = self.cond(recv.args[0], st)
      return self.split(c, st, lambda x: self.call_attr(recv.args[1], name, args, kwargs, x),
                        lambda x: self.call_attr(recv.args[2], name, args, kwargs, x))
    if recv.op in ('mod', 'ext', 'cls'):
      if recv.op == 'cls':
        ci = cd.cls_of(recv.args[0])
        fi = ci and self.repo.find_method(ci, name)
        if fi is not None and any(name in k.classmethods for k in self.repo.mro(ci)):
          return self.call_func(fi, [recv] + list(args), kwargs, st)
      fv = self.get_attr(recv, name, st)
      if fv.op == 'bound':
        return self.opaque_call(fv, args, kwargs, st)
      return self.call_value(fv, args, kwargs, st)
    return self.call_method(recv, name, args, kwargs, st)

  def call_value(self, fv, args, kwargs, st):
    self.tick()
    if fv.op == 'ite':
      c = self.cond(fv.args[0], st)
      return self.split(c, st, lambda x: self.call_value(fv.args[1], args, kwargs, x),
                        lambda x: self.call_value(fv.args[2], args, kwargs, x))
    if fv.op == 'func':
      fi = self.repo.func(fv.args[0])
      if fi is None:
        return self.opaque_call(fv, args, kwargs, st)
      return self.call_func(fi, args, kwargs, st)
    if fv.op == 'clo':
      cl = self.closures[fv]
      return self.inline(cl.node, cl.frame, cl.module, cl.cls, args, kwargs, st, fv)
    if fv.op == 'cls':
      return self.construct(fv, args, kwargs, st)
    if fv.op == 'bi':
      return self.builtin(fv.args[0], args, kwargs, st)
    if fv.op == 'ext':
      return self.external(fv.args[0], args, kwargs, st)
    if fv.op == 'bound':
      return self.call_attr(fv.args[0], fv.args[1], args, kwargs, st)
    if fv.op == 'partial':
      f, a, k = fv.args
      kk = dict(k)
      kk.update(dict(kwargs))
      return self.call_value(f, list(a) + list(args), list(kk.items()), st)
    if fv.op == 'ref':
      k = self.kind(fv)
      if isinstance(k, tuple) and k[0] == 'inst':
        return self.call_method(fv, '__call__', args, kwargs, st)
    if fv.op == 'lam' and len(args) == fv.args[0] and not kwargs:
      return tm.open_(fv.args[1], [self.reify(a, st) for a in args])
    ty = cd.type_of(fv)
    if ty and ty[0] == 'cls':
      ci = cd.cls_of(ty[1])
      fi = ci and self.repo.find_method(ci, '__call__')
      if fi is not None:
        return self.call_func(fi, [fv] + list(args), kwargs, st)
    return self.opaque_call(fv, args, kwargs, st)

  def opaque_call(self, fv, args, kwargs, st):
    if fv.op == 'ext' and fv.args[0] in ('time.perf_counter', 'time.monotonic', 'time.time'):
      # every reading of the clock is a new value
      n = st.cells.get(('clk',), tm.const(0))
      st.cells[('clk',)] = tm.add(n, tm.const(1))
      return T('call', fv, (n,), ())
    if fv.op == 'ext' and fv.args[0] in ('numpy.random.RandomState', 'numpy.random.default_rng', 'random.Random'):
      if not [v for v in list(args) + [v for _, v in kwargs] if v is not NONE]:
        return T('call', T('ext', 'entropy'), (), ())
      if not args and len(kwargs) == 1 and kwargs[0][0] == 'seed':
        args, kwargs = [kwargs[0][1]], []
    a = tuple(self.reify(self.cur(x, st), st) for x in args)
    k = tuple(sorted((n, self.reify(self.cur(v, st), st)) for n, v in kwargs))
    return T('call', fv, a, k)

  def cur(self, v, st):
    """Current content of an argument (opaque containers with pending updates)."""
    c = st.cells.get(('c', v))
    return c if c is not None else v

  # ---------------------------------------------------------------- functions
  def is_emitter(self, qual):
    return self.emitters.get(qual)

  def call_func(self, fi, args, kwargs, st):
    em = self.is_emitter(fi.qual)
    if em is not None:
      bound = self.bind(fi.node, args, kwargs, st, None, fi)
      return self.emit_call(fi, em, bound, st)
    if fi.qual in self.opaque or self.is_abstract(fi) or self.stub_body(fi):
      bound = self.bind(fi.node, args, kwargs, st, None, fi)
      if bound is None:
        return self.opaque_call(T('func', fi.qual), args, kwargs, st)
      vals = tuple(self.reify(self.cur(v, st), st) for _, v in bound)
      t = T('call', T('func', fi.qual), vals, ())
      if fi.qual in self.options.get('logged', ()):
        self.log_call(t, st)
      return t
    self.visited.add(fi.qual)
    return self.inline(fi.node, None, fi.module, fi.cls, args, kwargs, st, T('func', fi.qual))

  def log_call(self, t, st):
    """Calls that read or change shared state, in order; the order of consecutive reads does not matter."""
    readers = self.options.get('readers', ())
    is_read = lambda e: e.op == 'e' and e.args[0].op == 'call' and e.args[0].args[0].op == 'func' and e.args[0].args[0].args[0] in readers
    segs = tm.lst_segs(st.cells.get(('ev',), tm.lst(())))
    e = T('e', t)
    if is_read(e):
      i = len(segs)
      while i and is_read(segs[i - 1]):
        i -= 1
      segs = segs[:i] + tuple(sorted(set(segs[i:]) | {e}, key=lambda x: tm.show(x.args[0])))
    else:
      segs += (e,)
    st.cells[('ev',)] = tm.lst(segs)

  def stub_body(self, fi):
    return False

  def emit_call(self, fi, em, bound, st):
    vals = [v for _, v in bound]
    idx = em if isinstance(em, int) else em[0]
    rest = tuple(self.reify(v, st) for i, v in enumerate(vals) if i != idx)
    name = fi.qual.split(':')[-1]
    ev = T('emit', name, rest)
    tgt = vals[idx]
    k = ('em', self.emit_root(tgt, st))
    cur = st.cells.get(k, tm.lst(()))
    st.cells[k] = tm.lst(tm.lst_segs(cur) + (T('e', ev),))
    return T('call', T('func', fi.qual), rest, ())

  def emit_root(self, v, st):
    if v.op == 'ite':
      return T('anyobj')
    return v if v.op in ('ref', 'sym', 'attr') else T('anyobj')

  def bind(self, node, args, kwargs, st, frame, fi=None, def_frame=None):
    """Argument binding -> [(name, value)] in signature order, or None."""
    a = node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    out = {}
    if any(x.op == 'star' for x in args) or any(n == '**' for n, _ in kwargs):
      return None
    extra = []
    for i, v in enumerate(args):
      if i < len(pos):
        out[pos[i]] = v
      elif a.vararg:
        extra.append(v)
      else:
        return None
    names = set(pos) | set(p.arg for p in a.kwonlyargs)
    kextra = []
    for n, v in kwargs:
      if n in names:
        out[n] = v
      elif a.kwarg:
        kextra.append((n, v))
      else:
        return None
    mod = fi.module if fi is not None else (def_frame.module if def_frame else None)
    res = []
    nd = len(a.defaults)
    for i, p in enumerate(pos):
      if p not in out:
        j = i - (len(pos) - nd)
        if j < 0:
          return None
        out[p] = self.default_val(a.defaults[j], st, def_frame, mod)
      res.append((p, out[p]))
    if a.vararg:
      res.append((a.vararg.arg, tm.lst(tuple(T('e', v) for v in extra))))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
      if p.arg not in out:
        if d is None:
          return None
        out[p.arg] = self.default_val(d, st, def_frame, mod)
      res.append((p.arg, out[p.arg]))
    if a.kwarg:
      res.append((a.kwarg.arg, tm.dct(tuple(T('e', T('kv', const(n), v)) for n, v in kextra))))
    return res

  def default_val(self, node, st, def_frame, mod):
    if def_frame is None:
      def_frame = self.new_frame(None, mod, None)
    return self.ev(node, st, def_frame)

  def inline(self, node, parent, module, cls, args, kwargs, st, fv):
    if self.opaque_inner and parent is not None and getattr(node, 'name', None) in self.opaque_inner:
      bound = self.bind(node, args, kwargs, st, None, FI(module), parent)
      if bound is not None:
        return self.shared_call(T('call', T('func', 'inner:' + node.name), tuple(self.reify(self.cur(v, st), st) for _, v in bound), ()), st, node, parent)
    if node is self.part_node:
      bound = self.bind(node, args, kwargs, st, None, FI(module), parent)
      if bound is not None:
        return self.shared_call(T('call', T('func', 'self:' + node.name), tuple(self.reify(self.cur(v, st), st) for _, v in bound), ()), st)
    if len(self.stack) > self.inline_limit:
      raise Abort('inline depth')
    if node in self.stack:
      return self.rec_call(node, parent, args, kwargs, st, fv, module, cls)
    if node in self.rec:
      return self.fix_call(node, parent, module, cls, args, kwargs, st, fv)
    if self.is_recursive(node, parent, module, cls):
      self.rec[node] = None
      return self.fix_call(node, parent, module, cls, args, kwargs, st, fv)
    frame = self.new_frame(parent, module, node, cls)
    fi = FI(module)
    bound = self.bind(node, args, kwargs, st, frame, fi, parent)
    if bound is None:
      return self.opaque_call(fv, args, kwargs, st)
    s = st.fork()
    for n, v in bound:
      s.cells[('v', frame.fid, n)] = v
    self.stack.append(node)
    try:
      outs = self.exec_function_body(node, frame, s)
    finally:
      self.stack.pop()
    return self.finish_call(outs, st, frame)

  def finish_call(self, outs, st, frame):
    rets = []
    base = st.facts
    for c, sig, val, s in outs:
      if sig == 'ret':
        s2 = s.fork()
        s2.cells[('ret',)] = val
        rets.append((c, s2))
      else:
        st.exits.append((c, val))
    if not rets:
      if not any(c is TRUE for c, e in st.exits):
        # every path raises
        tot = FALSE
        for c, e in st.exits:
          tot = or_(tot, c)
        st.exits.append((TRUE, st.exits[-1][1] if st.exits else T('exc', '?')))
      return tm.top('raises')
    c, m = merge_many(rets, base)
    v = m.cells.pop(('ret',))
    keep = self.escapes(frame)
    st.cells = {k: x for k, x in m.cells.items() if not (k[0] in ('v', 'y') and k[1] == frame.fid)} if not keep else m.cells
    if len(rets) == 1 and not st.exits:
      st.facts = m.facts
    return v

  def escapes(self, frame):
    for c in self.closures.values():
      f = c.frame
      while f is not None:
        if f is frame:
          return True
        f = f.parent
    return False

  # ---------------------------------------------------------------- recursion
  def is_recursive(self, node, parent, module, cls):
    """Syntactic: does a (nested / module level) function call itself?"""
    name = getattr(node, 'name', None)
    if name is None:
      return False
    key = ('isrec', node)
    if key in self.fix_cache:
      return self.fix_cache[key]
    r = False
    for n in ast.walk(node):
      if isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Name) and f.id == name and cls_level(node, cls) is False:
          r = True
        elif isinstance(f, ast.Attribute) and f.attr == name and isinstance(f.value, ast.Name) \
            and f.value.id in ('self', 'cls') and cls is not None:
          r = True
    self.fix_cache[key] = r
    return r

  def rec_call(self, node, parent, args, kwargs, st, fv, module, cls):
    info = self.rec.get(node)
    if info is None:
      # mutual recursion reached without a summary: opaque
      if fv.op == 'clo':
        raise Abort('unsummarised recursion')
      return self.opaque_call(fv, args, kwargs, st)
    fi = FI(module)
    bound = self.bind(node, args, kwargs, st, None, fi, parent)
    if bound is None:
      raise Abort('recursive call binding')
    return self.apply_fix(T('self', info['depth']), bound, info, st)

  def apply_fix(self, head, bound, info, st):
    vals = [self.reify(self.cur(v, st), st) for n, v in bound if n not in info['inv']]
    pres = []
    for k in info['keys']:
      if info['mode'][k] == 'val':
        pres.append(self.reify(self.cell_value(k, st), st))
    call = T('call', head, tuple(vals) + tuple(pres), ())
    for j, k in enumerate(info['keys']):
      if info['mode'][k] == 'emit':
        cur = self.cell_value(k, st)
        out = T('out', call, j)
        if cur.op == 'lst':
          st.cells[k] = tm.lst(cur.args[0] + (T('x', out),))
        elif cur.op in ('dct', 'set'):
          st.cells[k] = T(cur.op, cur.args[0] + (T('x', out),))
        else:
          st.cells[k] = tm.lst((T('x', cur), T('x', out)))
      else:
        st.cells[k] = T('out', call, j)
    if info.get('noret'):
      return NONE
    return T('out', call, 'ret', info.get('rtype')) if info['keys'] or True else call

  def cell_value(self, k, st):
    v = st.cells.get(k)
    if v is None:
      from .state import default_cell
      v = default_cell(k)
    return v

  def fix_call(self, node, parent, module, cls, args, kwargs, st, fv):
    """Summarises a recursive function by a generic application."""
    fi = FI(module)
    bound = self.bind(node, args, kwargs, st, None, fi, parent)
    if bound is None:
      return self.opaque_call(fv, args, kwargs, st)
    cache_key = ('fix', node, parent.fid if parent else 0)
    depth = self.fix_depth
    keys, mode = [], {}
    rtype = cd.resolve_ann(node.returns, module) if getattr(node, 'returns', None) is not None else None
    saved = self.rec.get(node)
    mark = self.ctx.next_ref
    # state the function declares it updates is always part of the summary
    from .interp import local_names
    if isinstance(node, ast.FunctionDef):
      for nm in sorted(local_names(node)[1]):
        fr = parent
        while fr is not None:
          k = ('v', fr.fid, nm)
          if k in st.cells:
            cur = st.cells[k]
            if cur.op != 'ref':
              keys.append(k)
              mode[k] = 'val'
            break
          fr = fr.parent
      keys = self.order_cells(keys, st)
    inv = invariant_params(node, cls)
    for attempt in range(8):
      info = {'depth': depth, 'keys': keys, 'mode': mode, 'rtype': rtype, 'inv': inv}
      self.rec[node] = info
      s = st.fork()
      s.facts = cd.Facts()
      frame = self.new_frame(parent, module, node, cls)
      syms = []
      anns = {n: a for n, _, _, a in self.param_list(node)}
      for n, v in bound:
        if n in inv:
          s.cells[('v', frame.fid, n)] = v
          continue
        ty = cd.resolve_ann(anns.get(n), module) if anns.get(n) is not None else None
        if ty is None:
          ty = cd.type_of(self.content(v, st))
          if ty == cd.NONET:
            ty = None
        sy = tm.fresh('p', ty)
        syms.append(sy)
        s.cells[('v', frame.fid, n)] = sy
      pres = {}
      for k in keys:
        cur = self.cell_value(k, st)
        sy = tm.fresh('m', cd.type_of(cur))
        pres[k] = sy
        if mode[k] == 'emit':
          s.cells[k] = T(cur.op if cur.op in ('dct', 'set') else 'lst', (T('x', sy),))
        else:
          s.cells[k] = sy
      start = dict(s.cells)
      self.fix_depth += 1
      self.stack.append(node)
      try:
        outs = self.exec_function_body(node, frame, s)
      finally:
        self.stack.pop()
        self.fix_depth -= 1
      changed = []
      for c, sig, val, s2 in outs:
        for k, v in s2.cells.items():
          if k[0] in ('v', 'y') and k[1] == frame.fid:
            continue
          if k[0] == 'v' and k not in start:
            continue
          if k[0] in ('o', 'f') and (k[1].args[0] > mark):
            continue
          if k[0] in ('a', 'c') and (tm.frees(k[1]) & set(syms)):
            if v is not self.cell_value(k, State()) and k[1] in syms:
              self.rec[node] = saved
              raise Abort('recursive function updates its argument')
            continue
          old = start.get(k)
          if old is None:
            if k[0] in ('a', 'c', 'em'):
              if v is not (self.cell_value(k, State()) if k[0] != 'em' else None):
                changed.append(k)
            continue
          if old is not v and k not in changed:
            changed.append(k)
      new = [k for k in changed if k not in keys]
      if new:
        for k in new:
          cur = self.cell_value(k, st)
          mode[k] = 'emit' if (k[0] in ('o', 'em') and cur.op in ('lst', 'dct', 'set')) else 'val'
          if k not in st.cells and k[0] == 'em':
            st.cells[k] = tm.lst(())
        keys = self.order_cells(keys + new, st)
        continue
      # verify the emission modes
      bad = []
      for k in keys:
        if mode[k] != 'emit':
          continue
        sy = pres[k]
        for c, sig, val, s2 in outs:
          if sig != 'ret':
            continue
          v = s2.cells.get(k)
          ok = v is not None and v.op in ('lst', 'dct', 'set') and v.args[0] and v.args[0][0].op == 'x' and v.args[0][0].args[0] is sy
          if ok:
            rest = T('lst', v.args[0][1:])
            ok = sy not in tm.frees(rest)
          if ok and any(sy in tm.frees(x) for kk, x in s2.cells.items() if kk != k and not (kk[0] == 'v' and kk[1] == frame.fid)):
            ok = False
          if ok and sy in tm.frees(c):
            ok = False
          if not ok:
            bad.append(k)
            break
      if bad:
        for k in bad:
          mode[k] = 'val'
        continue
      break
    else:
      self.rec[node] = saved
      raise Abort('recursive summary did not stabilise')
    # build the summary
    items = []
    noret = True
    for c, sig, val, s2 in outs:
      if sig == 'raise':
        items.append((c, T('raise', val)))
        continue
      posts = []
      for k in keys:
        v = self.reify(s2.cells[k], s2)
        if mode[k] == 'emit':
          v = T(v.op, v.args[0][1:])
        posts.append(v)
      if val is not NONE:
        noret = False
      items.append((c, T('res', self.reify(val, s2), tuple(posts))))
    if not items:
      raise Abort('recursive function never returns')
    body = items[-1][1]
    for c, leaf in reversed(items[:-1]):
      body = ite(c, leaf, body)
    names = syms + [pres[k] for k in keys if mode[k] == 'val']
    body = self.reify(body, st)
    lam = T('lam', len(names), tm.close(body, names))
    info = {'depth': depth, 'keys': keys, 'mode': mode, 'rtype': rtype, 'noret': noret, 'inv': inv}
    self.rec[node] = saved
    sig = [self.cell_sig(k, st) for k in keys]
    tied = len(set(sig)) < len(sig)
    return self.apply_fix(T('fix', lam, tied), bound, info, st)

  def cell_sig(self, k, st):
    kind = {'o': 0, 'v': 1, 'em': 2}.get(k[0], 3)
    return (kind, tm.show(self.reify(self.cell_value(k, st), st)) if k[0] != 'em' else tm.show(k[1]))

  def order_cells(self, keys, st):
    """Order of summarised state, independent of the names used."""
    return sorted(keys, key=lambda k: (self.cell_sig(k, st), _cellkey(k)))

  def reify_closure(self, clo, st):
    cl = self.closures[clo]
    node = cl.node
    key = ('reify', clo)
    if key in self.fix_cache:
      return self.fix_cache[key]
    self.fix_cache[key] = tm.top('recursive closure')
    try:
      params = self.param_list(node)
      if any(k in ('vararg', 'kwarg') for _, k, _, _ in params):
        return tm.top('closure')
      syms = []
      s = st.fork()
      s.exits = []
      for n, k, d, ann in params:
        ty = cd.resolve_ann(ann, cl.module) if ann is not None else None
        syms.append(tm.fresh('p', ty))
      if node in self.stack:
        return tm.top('closure in itself')
      v = self.inline(node, cl.frame, cl.module, cl.cls, syms, [], s, clo)
      # effects inside an escaping closure are not tracked
      v = self.reify(v, s)
      for c, e in reversed(s.exits):
        v = ite(c, T('raise', e), v)
      r = T('lam', len(syms), tm.close(v, syms))
    except Abort as e:
      r = tm.top('closure: %s' % e)
    self.fix_cache[key] = r
    return r

  # ------------------------------------------------------------- constructors
  def construct(self, cv, args, kwargs, st):
    ci = cd.cls_of(cv.args[0])
    if ci is None:
      return self.opaque_call(cv, args, kwargs, st)
    kind = self.repo.kind(ci)
    if kind == 'enum':
      if len(args) == 1:
        return T('call', cv, (self.reify(args[0], st),), ())
    if kind == 'exception':
      return T('exc', ci.name)
    if kind in ('dataclass', 'namedtuple') and self.repo.find_method(ci, '__init__') is None \
        and self.repo.find_method(ci, '__new__') is None:
      fields = self.repo.all_fields(ci)
      if any(a.op == 'star' for a in args) or any(n == '**' for n, _ in kwargs):
        return self.opaque_call(cv, args, kwargs, st)
      vals = {}
      names = [f[0] for f in fields]
      if len(args) > len(names):
        return self.opaque_call(cv, args, kwargs, st)
      for n, v in zip(names, args):
        vals[n] = v
      for n, v in kwargs:
        if n not in names:
          return self.opaque_call(cv, args, kwargs, st)
        vals[n] = v
      for f in fields:
        if f[0] not in vals:
          if f[2] is None:
            return self.opaque_call(cv, args, kwargs, st)
          vals[f[0]] = self.field_default(f, st)
      if kind == 'namedtuple' or ci.frozen:
        if self.repo.find_method(ci, '__post_init__') is None:
          return T('rec', ci.qual, tuple((n, vals[n]) for n in names))
      r = self.new_ref(('inst', ci))
      for n in names:
        st.cells[('f', r, n)] = vals[n]
      pi = self.repo.find_method(ci, '__post_init__')
      if pi is not None:
        self.call_func(pi, [r], [], st)
      return r
    init = self.repo.find_method(ci, '__init__')
    r = self.new_ref(('inst', ci))
    if init is not None and (ci.qual in self.opaque or init.qual in self.opaque) and kwargs and not any(a.op == 'star' for a in args):
      # arguments by position, whichever way they are written
      names = [p[0] for p in self.param_list(init.node)][1:]
      kw = dict(kwargs)
      rest = names[len(args):len(args) + len(kw)]
      if set(rest) == set(kw) and all(p[1] not in ('vararg', 'kwarg', 'kwonly') for p in self.param_list(init.node)):
        args, kwargs = list(args) + [kw[n] for n in rest], []
    if ci.qual in self.opaque:
      return self.opaque_call(cv, args, kwargs, st)
    if init is not None:
      if init.qual in self.opaque:
        return self.opaque_call(cv, args, kwargs, st)
      self.call_func(init, [r] + list(args), kwargs, st)
    elif args or kwargs:
      return self.opaque_call(cv, args, kwargs, st)
    return r

  def field_default(self, f, st):
    name, ann, default, ci = f
    if isinstance(default, ast.Call) and (dotted(default.func) or '').split('.')[-1] in ('field', 'ib'):
      for k in default.keywords:
        if k.arg == 'default':
          return self.ev(k.value, st, self.new_frame(None, ci.module, None))
        if k.arg in ('default_factory', 'factory'):
          fv = self.ev(k.value, st, self.new_frame(None, ci.module, None))
          return self.call_value(fv, [], [], st)
      return UNDEF
    return self.ev(default, st, self.new_frame(None, ci.module, None))

  # ------------------------------------------------------------------ methods
  def call_method(self, recv, name, args, kwargs, st):
    if recv.op == 'ite':
      return self.call_attr(recv, name, args, kwargs, st)
    if recv.op == 'super':
      ci = recv.args[1] and cd.cls_of(recv.args[1])
      for b in (self.repo.mro(ci)[1:] if ci else ()):
        if name in b.methods:
          return self.call_func(b.methods[name], [recv.args[0]] + list(args), kwargs, st)
      return NONE if name == '__init__' else self.opaque_call(T('superm', name), args, kwargs, st)
    if recv.op == 'ref':
      k = self.kind(recv)
      if isinstance(k, tuple) and k[0] == 'inst':
        v = st.cells.get(('f', recv, name))
        if v is not None:
          return self.call_value(v, args, kwargs, st)
        fi = self.repo.find_method(k[1], name)
        if fi is not None:
          return self.call_meth_fi(fi, recv, args, kwargs, st)
        if name == '_replace':
          return self.rec_replace(recv, kwargs, st)
        self.event(recv, T('ev', name, tuple(self.reify(a, st) for a in args),
                           tuple((n, self.reify(v, st)) for n, v in sorted(kwargs))), st)
        return T('meth', name, self.reify(recv, st), tuple(self.reify(a, st) for a in args), ())
      if k == 'array':
        return self.value_method(recv, self.content(recv, st), name, args, kwargs, st)
      return self.container_method(recv, k, name, args, kwargs, st)
    if recv.op == 'rec':
      ci = cd.cls_of(recv.args[0])
      for f, v in recv.args[1]:
        if f == name:
          return self.call_value(v, args, kwargs, st)
      fi = ci and self.repo.find_method(ci, name)
      if fi:
        return self.call_meth_fi(fi, recv, args, kwargs, st)
      if name == '_replace':
        return so.mk_repl(recv, tuple((n, v) for n, v in kwargs))
    ov = st.cells.get(('a', recv, name))
    if ov is not None:
      return self.call_value(ov, args, kwargs, st)
    ty = self.narrow(recv, cd.type_of(recv), st)
    if ty and ty[0] == 'cls':
      ci = cd.cls_of(ty[1])
      fi = ci and self.repo.find_method(ci, name)
      if fi:
        return self.call_meth_fi(fi, recv, args, kwargs, st)
      if name == '_replace':
        return so.mk_repl(recv, tuple((n, v) for n, v in kwargs))
      for f in (self.repo.all_fields(ci) if ci else ()):
        if f[0] == name:
          return self.opaque_call(so.mk_attr(recv, name), args, kwargs, st)
    v = self.content(recv, st)
    return self.value_method(recv, v, name, args, kwargs, st)

  def call_meth_fi(self, fi, recv, args, kwargs, st):
    ci = fi.cls
    nm = fi.node.name
    if nm in ci.statics:
      return self.call_func(fi, args, kwargs, st)
    if nm in ci.classmethods:
      q = recv if recv.op == 'cls' else T('cls', ci.qual)
      return self.call_func(fi, [q] + list(args), kwargs, st)
    return self.call_func(fi, [recv] + list(args), kwargs, st)

  def rec_replace(self, recv, kwargs, st):
    k = self.kind(recv)
    r = self.new_ref(k)
    for key, v in list(st.cells.items()):
      if key[0] == 'f' and key[1] is recv:
        st.cells[('f', r, key[2])] = v
    for n, v in kwargs:
      st.cells[('f', r, n)] = v
    return r

  def list_extend(self, r, b, st):
    cur = st.cells.get(('o', r), UNDEF)
    segs = self.seq_segs(b, st)
    if cur.op == 'lst':
      st.cells[('o', r)] = tm.lst(cur.args[0] + tuple(segs))
    else:
      st.cells[('o', r)] = tm.lst((T('x', cur),) + tuple(segs))

  def container_method(self, r, kind, name, args, kwargs, st):
    cur = st.cells.get(('o', r), UNDEF)
    if kind == 'list':
      if name == 'append':
        base = cur.args[0] if cur.op == 'lst' else (T('x', cur),)
        st.cells[('o', r)] = tm.lst(base + (T('e', args[0]),))
        return NONE
      if name == 'appendleft':
        base = cur.args[0] if cur.op == 'lst' else (T('x', cur),)
        st.cells[('o', r)] = tm.lst((T('e', args[0]),) + base)
        return NONE
      if name == 'extend':
        self.list_extend(r, args[0], st)
        return NONE
      if name == 'insert' and args[0] is ZERO:
        base = cur.args[0] if cur.op == 'lst' else (T('x', cur),)
        st.cells[('o', r)] = tm.lst((T('e', args[1]),) + base)
        return NONE
      if name == 'pop' and (not args or args[0] is const(-1)):
        v = self.get_item(cur, const(-1), st)
        st.cells[('o', r)] = self.drop_last(cur)
        return v
      if name in ('popleft',) or (name == 'pop' and args and args[0] is ZERO):
        v = self.get_item(cur, ZERO, st)
        st.cells[('o', r)] = so.mk_slice(cur, ONE, NONE)
        return v
      if name == 'copy':
        return self.alloc_list(st, cur)
      if name == 'reverse':
        st.cells[('o', r)] = so.mk_rev(cur)
        return NONE
      if name == 'clear':
        st.cells[('o', r)] = tm.lst(())
        return NONE
      if name in ('index', 'count'):
        return T('meth', name, self.reify(cur, st), tuple(self.reify(a, st) for a in args), ())
      if name == 'sort':
        st.cells[('o', r)] = T('call', T('bi', 'sorted'), (self.reify(cur, st),),
                               tuple(sorted((n, self.reify(v, st)) for n, v in kwargs)))
        return NONE
    if kind == 'dict':
      if name == 'get':
        d = args[1] if len(args) > 1 else NONE
        return so.dct_get(cur, self.reify(args[0], st), d) if cur.op == 'dct' else T(
            'meth', 'get', self.reify(cur, st), (self.reify(args[0], st), d), ())
      if name in ('keys', 'items', 'values'):
        return T('view', name, r)
      if name == 'copy':
        return self.alloc_dict(st, cur)
      if name == 'update':
        if args:
          b = self.content(args[0], st)
          segs = b.args[0] if b.op == 'dct' else (T('x', b),)
        else:
          segs = tuple(T('e', T('kv', const(n), v)) for n, v in kwargs)
        st.cells[('o', r)] = T('dct', (cur.args[0] if cur.op == 'dct' else (T('x', cur),)) + tuple(segs))
        return NONE
      if name == 'setdefault':
        k = self.reify(args[0], st)
        d = args[1] if len(args) > 1 else NONE
        c = self.cond(cd.member(k, cur), st)
        def miss(x):
          self.set_item(r, k, d, x)
          return d
        return self.split(c, st, lambda x: self.get_item(r, k, x), miss)
    if kind == 'set':
      if name == 'add':
        if cur.op == 'set':
          e = T('e', args[0])
          if e not in cur.args[0]:
            st.cells[('o', r)] = T('set', cur.args[0] + (e,))
        else:
          st.cells[('o', r)] = T('set', (T('x', cur), T('e', args[0])))
        return NONE
      if name == 'update':
        st.cells[('o', r)] = T('set', cur.args[0] + tuple(self.seq_segs(args[0], st)))
        return NONE
      if name == 'copy':
        q = self.new_ref('set')
        st.cells[('o', q)] = cur
        return q
    rargs = tuple(self.reify(a, st) for a in args)
    res = T('meth', name, self.reify(cur, st), rargs, tuple((n, self.reify(v, st)) for n, v in sorted(kwargs)))
    if name not in PURE_METHODS:
      self.event(r, T('ev', name, rargs, ()), st)
    return res

  def drop_last(self, v):
    if v.op == 'lst' and v.args[0]:
      s = v.args[0][-1]
      if s.op == 'e':
        return tm.lst(v.args[0][:-1])
      if s.op == 'br':
        a = self.drop_last(tm.lst(v.args[0][:-1] + tuple(s.args[1])))
        b = self.drop_last(tm.lst(v.args[0][:-1] + tuple(s.args[2])))
        if a.op == 'lst' and b.op == 'lst':
          return tm.lst(tm.br(s.args[0], a.args[0], b.args[0]))
    return so.mk_slice(v, NONE, const(-1))

  def format_text(self, v, args, kwargs, st):
    """'..{}..'.format(..) with plain placeholders, as concatenation."""
    import string
    if not tm.is_str(v):
      return None
    try:
      fs = list(string.Formatter().parse(v.args[1]))
    except ValueError:
      return None
    kw = dict(kwargs)
    out = []
    auto = 0
    for lit, field, spec, conv in fs:
      out.append(const(lit))
      if field is None:
        continue
      if spec or conv not in (None, 's', 'r'):
        return None
      if field == '':
        if auto >= len(args):
          return None
        x = args[auto]
        auto += 1
      elif field.isdigit() and int(field) < len(args):
        x = args[int(field)]
      elif field in kw:
        x = kw[field]
      else:
        return None
      out.append(self.builtin('repr' if conv == 'r' else 'str', [x], [], st))
    return tm.cat(*out)

  def value_method(self, recv, v, name, args, kwargs, st):
    """Method on a non-heap value; recv is the object, v its current content."""
    rargs = tuple(self.reify(self.content(a, st), st) for a in args)
    rk = tuple((n, self.reify(x, st)) for n, x in sorted(kwargs))
    ty = cd.strip_none(cd.type_of(v))
    isstr = ty == cd.STR or tm.is_str(v)
    if name == 'join' and (isstr or ty is None):
      seq = args[0]
      segs = self.seq_segs(seq, st)
      return so.join(v, self.reify(tm.lst(tuple(segs)), st))
    if isstr and not kwargs:
      c = _const_str(v, name, rargs)
      if c is not None:
        return c
      if name == 'format':
        f = self.format_text(v, args, kwargs, st)
        return f if f is not None else T('meth', name, v, rargs, rk)
      if v.op == 'ite' and name in PURE_METHODS:
        return self.map_ite(v, lambda x: self.value_method(x, x, name, args, kwargs, st))
      if name in ('startswith', 'endswith') and rargs and rargs[0].op == 'lst':
        r = FALSE
        for s in rargs[0].args[0]:
          r = or_(r, T('truthy', T('meth', name, v, (s.args[0],), ())))
        return r
      if name in cd._STR_METH_BOOL:
        return cd.truth(T('meth', name, v, rargs, rk))
    if ty and ty[0] == 'dict' or v.op == 'dct':
      if name in ('keys', 'items', 'values') and not args:
        return T('view', name, v)
      if name == 'get':
        d = rargs[1] if len(rargs) > 1 else NONE
        if v.op == 'dct':
          return so.dct_get(v, rargs[0], d)
        return T('meth', 'get', v, (rargs[0], d), ())
    if name in ('append', 'extend', 'add', 'appendleft') and not kwargs and len(args) == 1:
      # mutation of an opaque container
      segs = v.args[0] if v.op == 'lst' else (T('x', v),)
      if name in ('append', 'add'):
        st.cells[('c', recv)] = tm.lst(segs + (T('e', args[0]),))
      elif name == 'extend':
        st.cells[('c', recv)] = tm.lst(segs + tuple(self.seq_segs(args[0], st)))
      else:
        st.cells[('c', recv)] = tm.lst((T('e', args[0]),) + segs)
      return NONE
    if name == 'pop' and not kwargs and (not args or rargs[0] is const(-1)) and (ty is None or ty[0] == 'seq'):
      st.cells[('c', recv)] = self.drop_last(v)
      return so.mk_item(v, const(-1))
    if name == 'copy' and not args:
      if ty and ty[0] == 'dict':
        return self.alloc_dict(st, v if v.op == 'dct' else T('dct', (T('x', v),)))
      if ty and ty[0] == 'seq' or v.op == 'lst':
        return self.alloc_list(st, v if v.op == 'lst' else tm.lst((T('x', v),)))
      return T('meth', 'copy', self.reify(v, st), (), ())
    if v.op == 'lst' and name in ('index', 'count'):
      return T('meth', name, self.reify(v, st), rargs, ())
    vv = self.reify(v, st)
    res = T('meth', name, vv, rargs, rk)
    if name not in PURE_METHODS and not (vv.op in ('const',)):
      self.event(recv, T('ev', name, rargs, rk), st)
    return res

  # ----------------------------------------------------------------- builtins
  def builtin(self, name, args, kwargs, st):
    kw = dict(kwargs)
    c = [self.content(a, st) for a in args]
    if name == '#identity':
      return args[0]
    if name == 'len' and len(args) == 1:
      v = c[0]
      if v.op in ('dct', 'set'):
        return cd.length(self.reify(v, st))
      ty = cd.type_of(v)
      if ty and ty[0] == 'cls' or args[0].op == 'ref' and isinstance(self.kind(args[0]), tuple):
        return self.call_method(args[0], '__len__', [], [], st)
      return cd.length(self.reify(v, st))
    if name == 'isinstance':
      return self.isinstance_cond(args[0], args[1], st)
    if name == 'type' and len(args) == 1:
      v = args[0]
      if v.op == 'ref':
        k = self.kind(v)
        if isinstance(k, tuple):
          return T('cls', k[1].qual)
        return T('bi', k)
      if v.op == 'rec':
        return T('cls', v.args[0])
      return T('typeof', v)
    if name == 'range':
      a = [self.reify(x, st) for x in c]
      if len(a) == 1:
        return T('range', ZERO, a[0], ONE)
      return T('range', a[0], a[1], a[2] if len(a) > 2 else ONE)
    if name == 'enumerate':
      start = args[1] if len(args) > 1 else kw.get('start', ZERO)
      return T('enumr', args[0], start)
    if name == 'zip':
      return T('zip', tuple(args))
    if name == 'reversed':
      segs = self.seq_segs(args[0], st)
      return so.mk_rev(tm.lst(tuple(segs)) if not (len(segs) == 1 and segs[0].op == 'x') else segs[0].args[0])
    if name in ('list', 'tuple'):
      if not args:
        return self.alloc_list(st, tm.lst(())) if name == 'list' else tm.lst(())
      segs = self.seq_segs(args[0], st)
      v = tm.lst(tuple(segs))
      return self.alloc_list(st, v) if name == 'list' else v
    if name == 'iter' and len(args) == 1:
      return args[0]
    if name in ('set', 'frozenset'):
      r = self.new_ref('set')
      st.cells[('o', r)] = T('set', tuple(self.seq_segs(args[0], st)) if args else ())
      return r
    if name == 'dict':
      segs = ()
      if args:
        v = c[0]
        if v.op == 'dct':
          segs = v.args[0]
        elif (cd.type_of(v) or ('',))[0] == 'dict':
          segs = (T('x', v),)
        else:
          segs = tuple(_pair_segs(self.seq_segs(args[0], st)))
      segs = segs + tuple(T('e', T('kv', const(n), v)) for n, v in kwargs)
      return self.alloc_dict(st, tm.dct(segs))
    if name == 'str':
      return so.tostr(self.reify(c[0], st)) if c else tm.EMPTY_STR
    if name == 'bool':
      return self.truth_of(args[0], st) if args else FALSE
    if name in ('int', 'float') and len(args) == 1:
      v = c[0]
      if v.op == 'enum':
        x = cd.enum_value(v)
        if x is not None and tm.is_num(x):
          return x
      if tm.is_bool(v):
        return ONE if v is TRUE else ZERO
      if cd.type_of(v) == (cd.INT if name == 'int' else cd.FLOAT):
        return v
      if tm.is_num(v) and (name == 'float' or tm.num(v).denominator == 1):
        return v
      if name == 'float' and cd.type_of(v) == cd.INT:
        return v
      if tm.is_str(v) and name == 'float':
        return T('const', 'fnum', v.args[1])
      if cd.type_of(v) == cd.BOOL:
        return ite(cd.truth(v), ONE, ZERO)
      return T('call', T('bi', name), (self.reify(v, st),), ())
    if name in ('min', 'max'):
      if len(args) >= 2 and not kwargs:
        return so.mk_minmax(name, [self.reify(x, st) for x in c])
      if len(args) == 1 and not kw.get('key'):
        segs = self.seq_segs(args[0], st)
        if all(s.op == 'e' for s in segs) and segs and 'default' not in kw:
          return so.mk_minmax(name, [self.reify(s.args[0], st) for s in segs])
        return self.fold_minmax(name, segs, kw.get('default'), st)
    if name == 'abs' and tm.is_num(c[0]):
      return const(abs(tm.num(c[0])))
    if name == 'sum':
      segs = self.seq_segs(args[0], st)
      start = args[1] if len(args) > 1 else kw.get('start', ZERO)
      return tm.add(self.reify(start, st), _sum_segs(self.reify(tm.lst(tuple(segs)), st)))
    if name in ('any', 'all'):
      segs = self.reify(tm.lst(tuple(self.seq_segs(args[0], st))), st).args[0]
      r = _exists(segs, name == 'all')
      return not_(r) if name == 'all' else r
    if name == 'next':
      return self.next_(args, st)
    if name == 'map' and len(args) == 2:
      r = self.new_ref('list')
      st.cells[('o', r)] = tm.lst(())
      def body(x, e):
        v = self.call_value(args[0], [e], [], x)
        x.cells[('o', r)] = tm.lst(x.cells[('o', r)].args[0] + (T('e', v),))
        return self.simple(x)
      self.absorb(self.run_iter(args[1], st, body), st)
      return r
    if name == 'filter' and len(args) == 2:
      r = self.new_ref('list')
      st.cells[('o', r)] = tm.lst(())
      def body(x, e):
        v = e if args[0] is NONE else self.call_value(args[0], [e], [], x)
        cc = self.truth_of(v, x)
        def keep(y):
          y.cells[('o', r)] = tm.lst(y.cells[('o', r)].args[0] + (T('e', e),))
          return [(TRUE, 'next', None, y)]
        return self.branch(cc, x, keep, lambda y: [(TRUE, 'next', None, y)])
      self.absorb(self.run_iter(args[1], st, body), st)
      return r
    if name == 'getattr' and len(args) >= 2 and tm.is_str(c[1]):
      return self.get_attr(args[0], c[1].args[1], st)
    if name == 'setattr' and tm.is_str(c[1]):
      self.set_attr(args[0], c[1].args[1], args[2], st)
      return NONE
    if name == 'sorted':
      segs = self.seq_segs(args[0], st)
      v = self.reify(tm.lst(tuple(segs)), st)
      if len(segs) == 1 and segs[0].op == 'x':
        v = self.reify(segs[0].args[0], st)
      return T('call', T('bi', 'sorted'), (v,), tuple((n, self.reify(x, st)) for n, x in sorted(kwargs)))
    if name == 'print':
      if self.options.get('quiet'):
        return NONE
      ev = T('print', tuple(self.reify(x, st) for x in c))
      cur = st.cells.get(('ev',), tm.lst(()))
      st.cells[('ev',)] = tm.lst(tm.lst_segs(cur) + (T('e', ev),))
      return NONE
    if name == 'slice':
      a = list(args)
      if len(a) == 1:
        return T('sl', NONE, a[0], NONE)
      return T('sl', a[0], a[1], a[2] if len(a) > 2 else NONE)
    if name in ('ValueError', 'KeyError', 'RuntimeError', 'TypeError', 'NotImplementedError', 'AssertionError', 'IndexError', 'Exception'):
      return T('exc', name)
    if name == 'divmod' and len(c) == 2:
      return tm.lst((T('e', T('bin', 'FloorDiv', c[0], c[1])), T('e', T('bin', 'Mod', c[0], c[1]))))
    return self.opaque_call(T('bi', name), [self.content(a, st) for a in args], kwargs, st)

  def fold_minmax(self, name, segs, default, st):
    v = self.reify(tm.lst(tuple(segs)), st)
    if len(v.args[0]) == 1 and v.args[0][0].op == 'x':
      v = v.args[0][0].args[0]
    # max(a + k for ..) keeps its own term
    kw = (('default', self.reify(default, st)),) if default is not None else ()
    return T('call', T('bi', name), (v,), kw)

  def next_(self, args, st):
    segs = self.seq_segs(args[0], st)
    if segs and segs[0].op == 'e':
      if args[0].op == 'ref':
        st.cells[('o', args[0])] = tm.lst(tuple(segs[1:]))
      return segs[0].args[0]
    if not segs and len(args) > 1:
      return args[1]
    v = self.reify(tm.lst(tuple(segs)), st)
    if len(args) > 1:
      return ite(cd.truth(v), so.mk_item(v, ZERO), args[1])
    if args[0].op == 'ref':
      st.cells[('o', args[0])] = so.mk_slice(v, ONE, NONE)
    return so.mk_item(v, ZERO)

  # ------------------------------------------------------------------ library
  def external(self, name, args, kwargs, st):
    kw = dict(kwargs)
    if name == 'IPython.display.display':
      ev = T('print', (tm.const('shown'),) + tuple(self.reify(x, st) for x in args))
      cur = st.cells.get(('ev',), tm.lst(()))
      st.cells[('ev',)] = tm.lst(tm.lst_segs(cur) + (T('e', ev),))
      return NONE
    if name in _IDENT:
      if args:
        return args[0]
      return T('bi', '#identity')
    if name in _LIST_CTORS:
      if not args:
        return self.alloc_list(st, tm.lst(()))
      return self.alloc_list(st, tm.lst(tuple(self.seq_segs(args[0], st))))
    if name in _EMPTY_LIST:
      return self.alloc_list(st, tm.lst(()))
    if name in _EMPTY_DICT and (name.endswith('.empty') or not args and not kwargs):
      return self.alloc_dict(st, tm.dct(()))
    if name == 'collections.defaultdict':
      return self.alloc_dict(st, T('dct', (T('x', T('defaultdict', self.reify(args[0], st) if args else NONE)),)))
    if name == 'dataclasses.replace':
      b = args[0]
      if b.op == 'ite':
        c = self.cond(b.args[0], st)
        return self.split(c, st, lambda x: self.external(name, [b.args[1]], kwargs, x),
                          lambda x: self.external(name, [b.args[2]], kwargs, x))
      if b.op == 'ref':
        return self.rec_replace(b, kwargs, st)
      q = None
      for i in st.facts.inst.get(b, ()):
        if not i.startswith('bi:'):
          q = i
      if q is not None:
        ci = cd.cls_of(q)
        fs = [f[0] for f in self.repo.all_fields(ci)]
        if set(kw) <= set(fs) and not so._has_subclass(ci):
          r = self.new_ref(('inst', ci))
          for f in fs:
            st.cells[('f', r, f)] = kw[f] if f in kw else self.get_attr(b, f, st)
          return r
      return so.mk_repl(b, tuple((n, self.reify(v, st)) for n, v in sorted(kwargs)))
    if name == 'functools.partial':
      return T('partial', args[0], tuple(args[1:]), tuple(kwargs))
    if name == 'itertools.chain':
      segs = []
      for a in args:
        segs.extend(self.seq_segs(a, st))
      return tm.lst(tuple(segs))
    if name == 'itertools.chain.from_iterable':
      r = self.new_ref('list')
      st.cells[('o', r)] = tm.lst(())
      def body(x, e):
        self.list_extend(r, e, x)
        return self.simple(x)
      self.absorb(self.run_iter(args[0], st, body), st)
      return r
    if name in ('typing.cast',):
      return args[1]
    if name in ('copy.copy', 'copy.deepcopy'):
      v = args[0]
      if v.op == 'ref':
        k = self.kind(v)
        if k in ('list', 'dict', 'set'):
          q = self.new_ref(k)
          st.cells[('o', q)] = st.cells[('o', v)]
          return q
        return self.rec_replace(v, [], st)
      return T('copyof', name.split('.')[1], self.reify(self.content(v, st), st))
    if name in ('typing.NewType', 'typing.TypeVar'):
      return tm.top('type')
    if name in ('enum.auto',):
      return T('auto')
    if name in ('math.inf', 'numpy.inf'):
      return T('const', 'fnum', 'inf')
    if name in ('itertools.zip_longest', 'itertools.product'):
      return self.opaque_call(T('ext', name), [self.content(a, st) for a in args], kwargs, st)
    v = self.opaque_call(T('ext', name), [self.content(a, st) for a in args], kwargs, st)
    if name.startswith('logging.') or name.startswith('absl.logging') or name in ('time.sleep',):
      return NONE
    if name in _FRESH:
      r = self.new_ref('array')
      st.cells[('o', r)] = v
      return r
    return v

  # --------------------------------------------------------- context managers
  def try_contextmanager(self, e, inner, st, frame):
    """Inlines a repo generator context manager around the with-body."""
    f = e.func
    if isinstance(f, ast.Attribute):
      recv = self.ev(f.value, st.fork(), frame)
      if recv.op in ('mod', 'cls'):
        fv = self.get_attr(recv, f.attr, st)
        pre = []
      else:
        ty = self.narrow(recv, cd.type_of(recv), st)
        ci = None
        if recv.op == 'ref' and isinstance(self.kind(recv), tuple):
          ci = self.kind(recv)[1]
        elif ty and ty[0] == 'cls':
          ci = cd.cls_of(ty[1])
        fi = ci and self.repo.find_method(ci, f.attr)
        if not fi:
          return None
        fv = T('func', fi.qual)
        pre = [recv]
    else:
      fv = self.ev(f, st.fork(), frame)
      pre = []
    if fv.op == 'func':
      fi = self.repo.func(fv.args[0])
      node, parent, module, cls = fi.node, None, fi.module, fi.cls
      if fi.qual in self.opaque:
        return None
    elif fv.op == 'clo':
      cl = self.closures[fv]
      node, parent, module, cls = cl.node, cl.frame, cl.module, cl.cls
    else:
      return None
    if not isinstance(node, ast.FunctionDef) or not any(
        (dotted(d) or '').endswith('contextmanager') for d in node.decorator_list):
      return None
    args, kwargs = self.ev_args(e, st, frame)
    fr = self.new_frame(parent, module, node, cls)
    bound = self.bind(node, pre + args, kwargs, st, fr, FI(module), parent)
    if bound is None:
      return None
    for n, v in bound:
      st.cells[('v', fr.fid, n)] = v
    fr.ctx_hook = inner
    self.stack.append(node)
    try:
      outs = self.exec_block(node.body, st, fr)
    finally:
      self.stack.pop()
    return outs


class FI:

  def __init__(self, module):
    self.module = module


def frame_cls(frame):
  f = frame
  while f is not None:
    if f.cls is not None:
      return f.cls.qual
    f = f.parent
  return None


def cls_level(node, cls):
  """True if node is a method of cls (so bare-name calls are not recursion)."""
  if cls is None:
    return False
  return any(m.node is node for m in cls.methods.values())


def invariant_params(node, cls):
  """Parameters every recursive call passes on unchanged."""
  if not isinstance(node, ast.FunctionDef):
    return frozenset()
  a = node.args
  names = [p.arg for p in a.posonlyargs + a.args]
  kwn = [p.arg for p in a.kwonlyargs]
  inv = set(names + kwn)
  for n in ast.walk(node):
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      inv.discard(n.id)
    if not isinstance(n, ast.Call):
      # the function used as a value: parameters unknown
      continue
    f = n.func
    off = 0
    if isinstance(f, ast.Name) and f.id == node.name:
      pass
    elif isinstance(f, ast.Attribute) and f.attr == node.name and cls is not None:
      off = 1
      if names and not (isinstance(f.value, ast.Name) and f.value.id == names[0]):
        inv.discard(names[0])
    else:
      continue
    if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
      return frozenset()
    given = {}
    for i, x in enumerate(n.args):
      if i + off < len(names):
        given[names[i + off]] = x
    for k in n.keywords:
      given[k.arg] = k.value
    for p in list(inv):
      if off and p == names[0]:
        continue
      x = given.get(p)
      if not (isinstance(x, ast.Name) and x.id == p):
        inv.discard(p)
  calls = {id(n.func) for n in ast.walk(node) if isinstance(n, ast.Call)}
  for n in ast.walk(node):
    if isinstance(n, ast.Name) and n.id == node.name and isinstance(n.ctx, ast.Load) and id(n) not in calls:
      return frozenset()
    if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
      for p in n.args.args:
        inv.discard(p.arg)
  return frozenset(inv)


def _cellkey(k):
  if k[0] == 'o':
    return (0, k[1].args[0], '')
  if k[0] == 'v':
    return (1, k[1], str(k[2]))
  if k[0] == 'em':
    return (2, 0, tm.show(k[1]))
  return (3, 0, str(k))


def _pair_segs(segs):
  for s in segs:
    if s.op == 'e' and s.args[0].op == 'lst' and len(s.args[0].args[0]) == 2:
      k, v = s.args[0].args[0]
      yield T('e', T('kv', k.args[0], v.args[0]))
    elif s.op == 'L':
      yield T('L', s.args[0], s.args[1], tuple(_pair_segs(s.args[2])))
    elif s.op == 'br':
      yield T('br', s.args[0], tuple(_pair_segs(s.args[1])), tuple(_pair_segs(s.args[2])))
    else:
      yield T('x', T('pairs', T('lst', (s,))))


def _sum_segs(v):
  if v.op != 'lst':
    return T('call', T('bi', 'sum'), (v,), ())
  r = ZERO
  for s in v.args[0]:
    r = tm.add(r, _sum_seg(s))
  return r


def _sum_seg(s):
  if s.op == 'e':
    return s.args[0]
  if s.op == 'x':
    return T('call', T('bi', 'sum'), (s.args[0],), ())
  if s.op == 'br':
    f = lambda q: _sum_segs(T('lst', tuple(q)))
    return ite(s.args[0], f(s.args[1]), f(s.args[2]))
  if s.op == 'L':
    return mk_sum(s.args[0], s.args[1], _sum_segs(T('lst', tuple(s.args[2]))))
  return T('call', T('bi', 'sum'), (T('lst', (s,)),), ())


def mk_sum(count, exit_, e):
  if e is ZERO:
    return ZERO
  if exit_ is FALSE:
    if not tm._mentions_level(e, 0) and not e._hasdb:
      return tm.mul(count, e)
    if e.op == 'item' and e.args[1].op == 'db' and e.args[1].args == (0, 0) and not tm._mentions_level(e.args[0], 0):
      xs = tm._shift(e.args[0], -1)
      if count is cd.length(xs):
        return T('call', T('bi', 'sum'), (xs,), ())
  return T('sum', count, exit_, e)


tm.REBUILD['sum'] = mk_sum


def _exists(segs, negate):
  r = FALSE
  for s in segs:
    if s.op == 'e':
      c = cd.truth(s.args[0])
      r = or_(r, not_(c) if negate else c)
    elif s.op == 'br':
      r = or_(r, ite(s.args[0], _exists(s.args[1], negate), _exists(s.args[2], negate)))
    elif s.op == 'L' and s.args[1] is FALSE:
      r = or_(r, mk_exists(s.args[0], FALSE, _exists(s.args[2], negate)))
    else:
      v = s.args[0] if s.op == 'x' else T('lst', (s,))
      t = T('truthy', T('call', T('bi', 'all' if negate else 'any'), (v,), ()))
      r = or_(r, not_(t) if negate else t)
  return r


def mk_exists(count, exit_, c):
  if c is FALSE:
    return FALSE
  if c is TRUE and exit_ is FALSE:
    return cd.gt0(count) if count is not tm.INF else TRUE
  return T('truthy', T('exists', count, exit_, c))


def _const_str(v, name, rargs):
  if not tm.is_str(v) or any(not (tm.is_str(a) or tm.is_num(a)) for a in rargs):
    return None
  vals = [a.args[1] if tm.is_str(a) else int(tm.num(a)) for a in rargs]
  try:
    if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'startswith', 'endswith',
                'isspace', 'isalnum', 'isalpha', 'isdigit', 'find', 'count', 'title'):
      return const(getattr(v.args[1], name)(*vals))
    if name in ('split', 'splitlines'):
      return tm.lst(tuple(T('e', const(x)) for x in getattr(v.args[1], name)(*vals)))
  except Exception:  # pylint: disable=broad-except
    return None
  return None

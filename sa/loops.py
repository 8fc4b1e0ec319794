"""Loop summaries: unrolling of literal sequences, one generic iteration else."""
from . import terms as tm
from . import conds as cd
from . import seqops as so
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const, ite, and_, or_, not_, INF
from .state import State, UNDEF, default_cell, merge_val, merge_many, merge_states
from .errors import Abort


class LoopMixin:

  # ------------------------------------------------------------ iteration view
  def iter_segs(self, v, st):
    """Any iterable value as list segments (elements may be heap refs)."""
    return self.content_segs(self.content(v, st), st)

  def content_segs(self, v, st):
    if v.op == 'ref':
      v = self.content(v, st)
    op = v.op
    if op == 'lst' or op == 'set':
      return v.args[0]
    if op == 'dct':
      from .exprs import _key_seg
      return tuple(q for s in v.args[0] for q in _key_seg(s))
    if op == 'ite':
      return tm.br(v.args[0], self.content_segs(v.args[1], st), self.content_segs(v.args[2], st))
    if op == 'range':
      lo, hi, stp = v.args
      n = so.simplify_count(lo, hi, stp)
      if tm.is_num(n) and tm.num(n) <= 16:
        return tuple(T('e', tm.add(lo, tm.mul(const(i), stp))) for i in range(max(0, int(tm.num(n)))))
      i = tm.fresh('i', cd.INT)
      e = tm.add(lo, tm.mul(i, stp))
      return (T('L', n, FALSE, (T('e', tm.close(e, [i])),)),)
    if op == 'enumr':
      inner = self.iter_segs(v.args[0], st)
      return tuple(self.enum_segs(inner, v.args[1]))
    if op == 'zip':
      return self.zip_segs(v.args[0], st)
    if op == 'view':
      return self.view_segs(v.args[0], v.args[1], st)
    if op == 'keys':
      pass
    if op == 'cls':
      ci = cd.cls_of(v.args[0])
      if ci is not None and ci.members:
        return tuple(T('e', T('enum', v.args[0], m)) for m in ci.members)
    if tm.is_str(v) and len(v.args[1]) <= 16:
      return tuple(T('e', const(ch)) for ch in v.args[1])
    if op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] == 'itertools.chain':
      return tuple(q for a in v.args[1] for q in self.iter_segs(a, st))
    if op == 'rec':
      return tuple(T('e', x) for _, x in v.args[1])
    ty = cd.type_of(v)
    if cd.SIZE[0] is not None and cd.sized(v):
      return tuple(T('e', so.mk_item(v, const(i))) for i in range(cd.SIZE[0]))
    if ty and ty[0] == 'tuple':
      return tuple(T('e', so.mk_item(v, const(i))) for i in range(len(ty[1])))
    if ty and ty[0] == 'dict' and op != 'keys':
      return (T('x', T('keys', v)),)
    return (T('x', v),)

  def enum_segs(self, segs, start):
    off = start
    if any(s.op == 'br' or (s.op == 'L' and not (len(s.args[2]) == 1 and s.args[2][0].op == 'e')) for s in segs):
      # number the elements of the list as a whole
      x = tm.lst(tuple(segs))
      i = tm.fresh('i', cd.INT)
      e = tm.lst((T('e', tm.add(off, i)), T('e', so.mk_item(x, i))))
      yield T('L', cd.length(x), FALSE, (T('e', tm.close(e, [i])),))
      return
    for s in segs:
      if s.op == 'e':
        yield T('e', tm.lst((T('e', off), s)))
        off = tm.add(off, ONE)
      elif s.op == 'x':
        i = tm.fresh('i', cd.INT)
        x = s.args[0]
        e = tm.lst((T('e', tm.add(off, i)), T('e', so.mk_item(x, i))))
        yield T('L', cd.length(x), FALSE, (T('e', tm.close(e, [i])),))
        off = tm.add(off, cd.length(x))
      elif s.op == 'L' and len(s.args[2]) == 1 and s.args[2][0].op == 'e':
        i = tm.fresh('i', cd.INT)
        body = tm.open_(s.args[2][0].args[0], [i])
        e = tm.lst((T('e', tm.add(off, i)), T('e', body)))
        yield T('L', s.args[0], s.args[1], (T('e', tm.close(e, [i])),))
        off = tm.add(off, cd.seg_len(s))
      else:
        raise Abort('enumerate over irregular list')

  def zip_segs(self, vals, st):
    segs = [self.iter_segs(v, st) for v in vals]
    if all(all(s.op == 'e' for s in ss) for ss in segs):
      return tuple(T('e', tm.lst(tuple(x))) for x in zip(*segs))
    terms, counts = [], []
    for ss in segs:
      t = tm.lst(tuple(ss))
      if len(ss) == 1 and ss[0].op == 'x':
        t = ss[0].args[0]
      terms.append(t)
      counts.append(cd.length(t))
    if any(c.op == 'inf' for c in counts):
      raise Abort('zip over unbounded')
    n = counts[0]
    for c in counts[1:]:
      if c is not n:
        n = so.mk_minmax('min', counts)
        break
    i = tm.fresh('i', cd.INT)
    els = []
    for t in terms:
      els.append(T('e', so.mk_item(t, i)))
    if tm.is_num(n) and tm.num(n) <= 16:
      return tuple(T('e', tm.lst(tuple(T('e', so.mk_item(t, const(k))) for t in terms))) for k in range(int(tm.num(n))))
    return (T('L', n, FALSE, (T('e', tm.close(tm.lst(tuple(els)), [i])),)),)

  def view_segs(self, kind, d, st):
    v = self.content(d, st)

    def kvseg(s):
      if s.op == 'e':
        k, x = s.args[0].args
        r = {'items': tm.lst((T('e', k), T('e', x))), 'keys': k, 'values': x}[kind]
        return (T('e', r),)
      if s.op == 'x':
        return self.opaque_view(kind, s.args[0])
      if s.op == 'br':
        a = tuple(q for y in s.args[1] for q in kvseg(y))
        b = tuple(q for y in s.args[2] for q in kvseg(y))
        return tm.br(s.args[0], a, b)
      if s.op == 'L':
        return (T('L', s.args[0], s.args[1], tuple(q for y in s.args[2] for q in kvseg(y))),)
      raise Abort('dict view')

    if v.op == 'dct':
      return tuple(q for s in v.args[0] for q in kvseg(s))
    return self.opaque_view(kind, v)

  def opaque_view(self, kind, v):
    ks = T('keys', v)
    if kind == 'keys':
      return (T('x', ks),)
    i = tm.fresh('i', cd.INT)
    k = T('item', ks, i)
    x = so.mk_item(v, k)
    e = x if kind == 'values' else tm.lst((T('e', k), T('e', x)))
    return (T('L', cd.length(ks), FALSE, (T('e', tm.close(e, [i])),)),)

  # ------------------------------------------------------------------ run_iter
  def run_iter(self, it, st, body):
    """body(state, elem) -> outcomes.  Returns outcomes next/brk/ret/raise."""
    self.nloops += 1
    segs = self.iter_segs(it, st)
    return self.run_segs(segs, st, body)

  def run_segs(self, segs, st, body):
    done = []
    cond = TRUE
    cur = st
    for s in segs:
      outs = self.run_seg(s, cur, body)
      nexts = []
      for c, sig, val, y in outs:
        cc = and_(cond, c)
        if cc is FALSE:
          continue
        if sig in ('next', 'cont'):
          nexts.append((c, y))
        else:
          done.append((cc, sig, val, y))
      if not nexts:
        return done
      if len(nexts) == 1:
        c, cur = nexts[0]
      else:
        c, cur = merge_many(nexts, cur.facts)
      cond = and_(cond, c)
    done.append((cond, 'next', None, cur))
    return done

  def run_seg(self, s, st, body):
    self.tick()
    if s.op == 'e':
      return body(st, s.args[0])
    if s.op == 'x':
      x = s.args[0]
      n = cd.length(x)
      if tm.is_num(n) and tm.num(n) <= 16:
        return self.run_segs([T('e', so.mk_item(x, const(k))) for k in range(int(tm.num(n)))], st, body)
      return self.generic(n, st, lambda y, i: body(y, so.mk_item(x, i)))
    if s.op == 'br':
      return self.branch(self.cond(s.args[0], st), st, lambda y: self.run_segs(s.args[1], y, body),
                         lambda y: self.run_segs(s.args[2], y, body))
    if s.op == 'L':
      n, ex, inner = s.args
      if ex is FALSE:
        return self.generic(n, st, lambda y, i: self.run_segs(tm.open_(inner, [i]), y, body))

      def b2(y, i):
        outs = self.run_segs(tm.open_(inner, [i]), y, body)
        e = tm.open_(ex, [i])
        res = []
        for c, sig, val, z in outs:
          if sig in ('next', 'cont'):
            res.append((and_(c, e), 'brk', 'inner', z))
            res.append((and_(c, not_(e)), 'next', None, z.fork()))
          else:
            res.append((c, sig, val, z))
        return res

      outs = self.generic(n, st, b2)
      # an inner exit is a normal end of the iteration
      res, nexts = [], []
      for c, sig, val, z in outs:
        if sig == 'next' or (sig == 'brk' and val == 'inner'):
          nexts.append((c, z))
        else:
          res.append((c, sig, val, z))
      if nexts:
        c, z = merge_many(nexts, st.facts)
        res.append((c, 'next', None, z))
      return res
    raise Abort('segment ' + s.op)

  def peel(self, body, st, limit=6):
    """The outcomes of a loop that certainly ends after a few iterations."""
    saved = dict(st.cells), st.facts, list(st.exits), st.dead
    done, cond, cur = [], TRUE, st
    for _ in range(limit):
      self.tick()
      nexts = []
      for c, sig, val, y in body(cur):
        cc = and_(cond, c)
        if cc is FALSE:
          continue
        if sig in ('next', 'cont'):
          nexts.append((c, y))
        else:
          done.append((cc, sig, val, y))
      if not nexts:
        return done
      c, cur = nexts[0] if len(nexts) == 1 else merge_many(nexts, cur.facts)
      cond = and_(cond, c)
    st.cells, st.facts, st.exits, st.dead = saved
    return None

  # ------------------------------------------------------------------- generic
  def run_while(self, body, st, few=False):
    self.nloops += 1
    if cd.SIZE[0] is not None or few:
      outs = self.peel(body, st)
      if outs is not None:
        return outs
    info = {}
    outs = self.generic(INF, st, lambda y, i: body(y), info=info)
    # recognise a bounded counter
    for k, (lv, v, init) in info.get('cells', {}).items():
      if v is None:
        continue
      d = tm.sub(v, lv) if v.op in ('poly', 'fv') else None
      if d is not ONE:
        continue
      for cnd in info.get('exits', ()):
        n = self.bound_from(cnd, lv, info['lvs'])
        if n is None:
          continue
        count = tm.sub(n, init)
        if not self.is_intlike(init):
          continue
        outs2 = self.generic(count, st, lambda y, i: body(y), pinned={k: lambda i, init=init: tm.add(init, i)})
        return outs2
    return outs

  def is_intlike(self, v):
    return cd.type_of(v) in (cd.INT, None)

  def bound_from(self, cnd, lv, lvs):
    """Exit condition equivalent to (or implied by) lv >= n: returns n."""
    lits = []

    def collect(x, pol):
      # literals whose violation leaves the loop: exit = or of literals
      if x.op == 'ite':
        c, a, b = x.args
        if a is TRUE:
          lits.append((c, True))
          collect(b, pol)
        elif b is TRUE:
          lits.append((c, False))
          collect(a, pol)
        elif a is FALSE and b is not FALSE:
          pass
      elif x.op in ('gt0',):
        lits.append((x, True))

    collect(cnd, True)
    if cnd.op == 'ite' and cnd.args[1] is FALSE and cnd.args[2] is TRUE:
      lits.append((cnd.args[0], False))
    for a, pol in lits:
      if a.op != 'gt0':
        continue
      p = a.args[0]
      # exit when a == pol.  continue when a == (not pol)
      # continue condition as q > 0:
      q = p if not pol else tm.sub(ONE, p)
      d = tm.poly_dict(q)
      if d.get(((lv, 1),)) == -1:
        n = tm.add(q, lv)
        if not (tm.frees(n) & lvs):
          return n
    return None

  def generic(self, count, st, body, info=None, pinned=None):
    """One generic iteration; body(state, idx) -> outcomes."""
    self.summarised = getattr(self, 'summarised', 0) + 1
    if count is not INF:
      count = self.cond(count, st)
      if tm.is_num(count) and tm.num(count) <= 0:
        return [(TRUE, 'next', None, st)]
      if count.op == 'ite' and False:
        pass
    if getattr(self, 'grabbing', False):
      self.grabbing = False
      idx = tm.sym('$index' + "'" * len(self.ranges), cd.INT)
      s = st.fork()
      rs = [cd.gt0(tm.add(idx, ONE))]
      if count is not INF:
        rs.append(cd.gt0(tm.sub(count, idx)))
      for c in rs:
        s.facts = s.facts.assume(c) or s.facts
      self.ranges.append(rs)
      self.count = count
      return body(s, idx)
    mark = self.ctx.next_ref
    fmark = self.ctx.next_frame
    havoc = {}
    order = []
    pinned = pinned or {}
    boxed = {}
    for attempt in range(10):
      s = st.fork()
      idx = tm.fresh('i', cd.INT)
      if count is not INF:
        f = s.facts.assume(cd.gt0(tm.add(idx, ONE)))
        f = f.assume(cd.gt0(tm.sub(count, idx))) if f is not None else None
        if f is None:
          return [(TRUE, 'next', None, st)]
        s.facts = f
      lvs = {}
      for k in order:
        init = self.cell_value_(k, st)
        if k in pinned:
          s.cells[k] = pinned[k](idx)
          lvs[k] = None
          continue
        if k in boxed:
          lv = tm.fresh('lv', cd.type_of(init) or ('seq', None))
          lvs[k] = lv
          s.cells[k] = boxed[k]
          s.cells[('o', boxed[k])] = tm.lst((T('x', lv),))
          continue
        lv = tm.fresh('lv', self.lv_type(init, havoc.get(k)))
        lvs[k] = lv
        s.cells[k] = self.lv_cell(init, lv, k)
      start = dict(s.cells)
      self.loop_depth += 1
      try:
        outs = body(s, idx)
      finally:
        self.loop_depth -= 1
      changed = set()
      for c, sig, val, s2 in outs:
        if sig == 'raise':
          continue
        for k, v in s2.cells.items():
          if not self.loop_visible(k, st, mark, fmark, idx):
            continue
          old = start.get(k)
          if old is None:
            old = default_cell(k) if k[0] != 'em' else tm.lst(())
          if old is not v:
            changed.add(k)
            havoc[k] = self.join_type(havoc.get(k), v, s2)
      new = [k for k in changed if k not in order]
      if not new:
        break
      order = order + sorted(new, key=_ckey)
      for k in new:
        # a variable rebound to fresh lists: its content is the carried value
        init = st.cells.get(k)
        if k[0] == 'v' and init is not None and init.op == 'ref' and self.kind(init) == 'list' \
            and st.cells.get(('o', init)) is not None and st.cells[('o', init)].op == 'lst':
          st = st.fork()
          self.check_alias(init, k, st)
          st.cells[k] = st.cells[('o', init)]
          boxed[k] = self.new_ref('list')
    else:
      raise Abort('loop did not stabilise')
    if boxed:
      for c, sig, val, s2 in outs:
        if sig in ('next', 'cont'):
          for k in boxed:
            for r in tm.frees(s2.cells[k]):
              if r.op == 'ref':
                self.check_alias(r, k, s2, lambda kk: self.loop_visible(kk, st, mark, fmark, idx))
      res = self.close_loop(count, st, outs, order, lvs, idx, mark, start, info, pinned)
      for c, sig, val, s2 in res:
        for k in boxed:
          v = s2.cells[k]
          if v.op != 'ref':
            r = self.new_ref('list')
            s2.cells[('o', r)] = v if v.op == 'lst' else tm.lst((T('x', v),))
            s2.cells[k] = r
      return res
    return self.close_loop(count, st, outs, order, lvs, idx, mark, start, info, pinned)

  def check_alias(self, r, k, st, vis=None):
    def occ(t, pc, out):
      if t is r:
        out.append(pc)
      elif r not in tm.frees(t):
        return
      elif t.op == 'ite':
        occ(t.args[1], and_(pc, t.args[0]), out)
        occ(t.args[2], and_(pc, not_(t.args[0])), out)
      elif t.op == 'br':
        for x in t.args[1]:
          occ(x, and_(pc, t.args[0]), out)
        for x in t.args[2]:
          occ(x, and_(pc, not_(t.args[0])), out)
      elif t.op in ('lst', 'dct', 'set'):
        for x in t.args[0]:
          occ(x, pc, out)
      elif t.op == 'e':
        occ(t.args[0], pc, out)
      else:
        out.append(pc)
    mine = []
    occ(st.cells[k], TRUE, mine)
    for kk, v in st.cells.items():
      if kk == k or kk == ('o', r) or r not in tm.frees(v) or (vis is not None and not vis(kk)):
        continue
      o = []
      occ(v, TRUE, o)
      for a in mine:
        for b in o:
          c = and_(a, b)
          if c is not FALSE and st.facts.assume(c) is not None:
            raise Abort('aliased loop-carried list')

  def lv_type(self, init, h):
    t = cd.type_of(init)
    if h is None or h is UNDEF or t is None:
      return t
    u = h
    if u == t:
      return t
    if t == cd.NONET or u is None:
      return None if u is None else cd.union([t, u])
    if {t, u} <= {cd.INT, cd.FLOAT}:
      return cd.FLOAT
    try:
      return cd.union([t, u])
    except Exception:  # pylint: disable=broad-except
      return None

  def join_type(self, old, v, st):
    t = cd.type_of(self.content(v, st))
    if old is None:
      return t
    if old == t:
      return t
    if t is None:
      return None
    return old

  def cell_value_(self, k, st):
    v = st.cells.get(k)
    if v is None:
      v = tm.lst(()) if k[0] == 'em' else default_cell(k)
    return v

  def lv_cell(self, init, lv, k):
    if init.op in ('lst', 'dct', 'set') and k[0] in ('o', 'em', 'y', 'c', 'ev'):
      return T(init.op, (T('x', lv),))
    if k[0] == 'c':
      return lv
    return lv

  def loop_visible(self, k, st, mark, fmark, idx):
    if k in st.cells:
      return True
    if k[0] == 'em':
      return not (k[1].op == 'ref' and k[1].args[0] > mark)
    if k[0] in ('a', 'c'):
      fr = tm.frees(k[1])
      if idx in fr:
        return False
      if any(x.op == 'ref' and x.args[0] > mark for x in fr):
        return False
      return True
    if k[0] == 'ev':
      return True
    return False

  def close_loop(self, count, st, outs, order, lvs, idx, mark, start, info, pinned):
    ends, brks, rets, raises = [], [], [], []
    for c, sig, val, s in outs:
      if sig in ('next', 'cont'):
        ends.append((c, s))
      elif sig == 'brk':
        brks.append((c, val, s))
      elif sig == 'ret':
        rets.append((c, val, s))
      else:
        raises.append((c, val, s))
    if not ends and not brks and not rets:
      # every iteration raises
      if not raises:
        return [(TRUE, 'next', None, st)]
      e = raises[0][1]
      g = cd.gt0(count) if count is not INF else TRUE
      res = [(g, 'raise', e, st)]
      if g is not TRUE:
        res.append((not_(g), 'next', None, st.fork()))
      return res
    # reify references allocated inside the loop
    def rf(v, s):
      refs = [r for r in tm.frees(v) if (r.op == 'ref' and r.args[0] > mark)]
      if not refs:
        return v
      m = {r: self.reify_ref(r, s, ()) for r in refs}
      return tm.subst(v, m)

    for group in (ends, brks, rets):
      for item in group:
        s = item[-1]
        for k in order:
          if k in s.cells:
            s.cells[k] = rf(s.cells[k], s)
    rets = [(c, self.reify(v, s) if any(r.op == 'ref' and r.args[0] > mark for r in tm.frees(v)) else v, s) for c, v, s in rets]
    brk_c = FALSE
    for c, v, s in brks:
      brk_c = or_(brk_c, c)
    ret_c = FALSE
    for c, v, s in rets:
      ret_c = or_(ret_c, c)
    raise_c = FALSE
    for c, v, s in raises:
      raise_c = or_(raise_c, c)
    exit_c = or_(brk_c, ret_c)
    # all iterations' effects, including the one that leaves
    allst = [(c, s) for c, v, s in rets] + [(c, s) for c, v, s in brks] + ends
    _, mst = merge_many(allst, st.facts)
    if ends:
      _, nst = merge_many(ends, st.facts)
    else:
      nst = None
    vals = {}
    for k in order:
      vals[k] = mst.cells.get(k, UNDEF)
    lvset = frozenset(lv for lv in lvs.values() if lv is not None)
    if info is not None:
      info['cells'] = {k: (lvs[k], nst.cells.get(k) if nst else None, self.cell_value_(k, st)) for k in order if lvs.get(k) is not None}
      info['exits'] = [c for c, v, s in brks if v == 'test'] or [brk_c]
      info['lvs'] = lvset
    # constant-step induction variables
    sub = {}
    ind = {}
    for k in order:
      if k in pinned:
        ind[k] = (self.cell_value_(k, st), ONE)
        continue
      lv = lvs[k]
      v = nst.cells.get(k) if nst else None
      if v is None or lv is None:
        continue
      if v.op in ('poly', 'fv') or v is lv:
        d = tm.sub(v, lv)
        if tm.is_num(d) and count is not INF:
          init = self.cell_value_(k, st)
          sub[lv] = tm.add(init, tm.mul(idx, d))
          ind[k] = (init, d)
    if sub:
      S = lambda t: tm.subst(t, sub)
      vals = {k: S(v) for k, v in vals.items()}
      brk_c, ret_c, raise_c, exit_c = S(brk_c), S(ret_c), S(raise_c), S(exit_c)
      rets = [(S(c), S(v), s) for c, v, s in rets]
      raises = [(S(c), v, s) for c, v, s in raises]
      brks = [(S(c), v, s) for c, v, s in brks]
    lvset = lvset - set(sub)
    shared = [exit_c, raise_c] + [v for c, v, s in rets] + [c for c, v, s in rets] + [c for c, _, _ in raises]
    # which cells have a closed form?
    deltas = {}
    for k in order:
      if k in ind:
        continue
      deltas[k] = self.delta(vals[k], lvs[k], self.cell_value_(k, st), exit_c)
    closed = set()
    cand = [k for k in deltas if deltas[k] is not None]
    # a candidate is closed if no other cell / shared term mentions its lv, and
    # it mentions no carried lv
    def users(lv, but):
      for t in shared:
        if lv in tm.frees(t):
          return True
      for k2 in order:
        if k2 is but or k2 in ind and not (lv in tm.frees(vals[k2])):
          continue
        t = deltas[k2][1] if (k2 in deltas and deltas.get(k2) is not None and k2 != but) else vals[k2]
        if k2 != but and lv in tm.frees(t):
          return True
      return False

    ok = {k for k in cand if not users(lvs[k], k)}
    # closed-form deltas may not mention lvs that are carried
    while True:
      carried = [k for k in order if k not in ok and k not in ind]
      clv = frozenset(lvs[k] for k in carried if lvs[k] is not None)
      bad = {k for k in ok if (tm.frees(deltas[k][1]) & lvset) or (tm.frees(exit_c) & lvset)}
      if not bad:
        break
      ok -= bad
      if not ok:
        break
    carried = [k for k in order if k not in ok and k not in ind]
    # drop variables that are neither read by others nor carried over
    # (temporaries: value independent of the previous iteration)
    res_st = st.fork()
    loop_t = None
    exit_cl = tm.close(exit_c, [idx])
    need_loop = bool(carried) or (tm.frees(exit_c) & lvset) or any((tm.frees(v) & lvset) for c, v, s in rets) or (tm.frees(raise_c) & lvset)
    has_exit = exit_c is not FALSE
    temps = [k for k in carried if not any(lvs[k] in tm.frees(t) for t in shared)
             and not any(lvs[k] in tm.frees(vals[k2]) for k2 in order)
             and not (tm.frees(vals[k]) & (lvset - {lvs[k]}))]
    if count is not INF and not has_exit:
      for k in temps:
        init = self.cell_value_(k, st)
        last = tm.subst(vals[k], {idx: tm.sub(count, ONE)})
        res_st.cells[k] = merge_val(cd.gt0(count), last, init) if init is not UNDEF else T('lastof', count, last)
      carried = [k for k in carried if k not in temps]
      need_loop = bool(carried) or (tm.frees(raise_c) & lvset)
    if need_loop:
      names, inits, nexts, kinds = [idx], [], [], []
      # canonical order of the carried cells
      anon = {lvs[k]: T('fv', 0, 'LV', None) for k in carried if lvs[k] is not None}
      anon[idx] = T('fv', 0, 'IX', None)
      def skey(k):
        init = self.cell_value_(k, st)
        a = tm.show(tm.subst(self.reify(init, st), anon))
        b = tm.show(tm.subst(vals[k], anon))
        return (_norm(b), _norm(a))
      keyed = sorted(((skey(k), _ckey(k)), k) for k in carried) if len(carried) > 1 else [((None, None), k) for k in carried]
      carried = [k for _, k in keyed]
      emit = set()
      for k in carried:
        d = deltas.get(k)
        names.append(lvs[k])
        if d is not None and d[0] in ('lst', 'dct', 'set') and not users(lvs[k], k) and lvs[k] not in tm.frees(d[1]):
          emit.add(k)
          inits.append(T('emitinit'))
          nexts.append(T('emits', d[0], d[1]))
        else:
          inits.append(self.reify(self.cell_value_(k, st), st))
          nexts.append(self.reify(vals[k], mst))
      exits = [brk_c] + [c for c, v, s in rets]
      rvals = [self.reify(v, s) for c, v, s in rets]
      # which of brk / rets fire
      b = T('body', tuple(nexts), brk_c, tuple(T('rt', c, v) for (c, _, s), v in zip(rets, rvals)),
            tuple(T('rs', c, v) for c, v, s in raises))
      loop_t = T('loop', count, tuple(inits), tm.close(b, names))
      for j, k in enumerate(carried):
        init = self.cell_value_(k, st)
        ty = self.lv_type(init, cd.type_of(vals[k]))
        o = T('out', loop_t, j, ty)
        if k in emit:
          res_st.cells[k] = rebuild_container(init, (T('x', o),))
        elif init.op in ('lst', 'dct', 'set') and k[0] in ('o', 'em', 'y', 'c', 'ev'):
          res_st.cells[k] = T(init.op, (T('x', o),))
        else:
          res_st.cells[k] = o
    for k in ok:
      kind, d = deltas[k]
      init = self.cell_value_(k, st)
      dc = tm.close(d, [idx])
      if kind in ('lst', 'dct', 'set'):
        segs = tm.mk_L(count, exit_cl, dc.args[0]) if kind == 'lst' else ((T('L', count, exit_cl, dc.args[0]),) if dc.args[0] else ())
        res_st.cells[k] = rebuild_container(init, segs)
      elif kind == 'str':
        res_st.cells[k] = tm.cat(init, so.mk_strl(count, exit_cl, dc))
      elif kind == 'num':
        from .calls import mk_sum
        res_st.cells[k] = tm.add(init, mk_sum(count, exit_cl, dc))
      elif kind == 'or':
        from .calls import mk_exists
        e = mk_exists(count, exit_cl, dc)
        res_st.cells[k] = ite(e, TRUE, init)
      elif kind == 'and':
        from .calls import mk_exists
        e = mk_exists(count, exit_cl, not_(dc))
        res_st.cells[k] = ite(e, FALSE, init)
      elif kind == 'first':
        from .calls import mk_exists
        e = mk_exists(count, FALSE, exit_cl)
        res_st.cells[k] = merge_val(e, T('first', count, T('lam', 1, exit_cl), T('lam', 1, dc)), init)
      elif kind in ('max', 'min'):
        seq = tm.lst(tm.mk_L(count, exit_cl, (T('e', dc),)))
        if len(seq.args[0]) == 1 and seq.args[0][0].op == 'x':
          seq = seq.args[0][0].args[0]
        res_st.cells[k] = T('call', T('bi', kind), (seq,), (('default', init),))
      else:
        raise Abort('closed form ' + kind)
    for k, (init, d) in ind.items():
      if not has_exit:
        res_st.cells[k] = tm.add(init, tm.mul(count, d)) if count is not INF else tm.top('inf')
      else:
        res_st.cells[k] = T('indout', init, d, self.iters(count, exit_c, idx, loop_t, vals[k]))
    # overlay cells of per-iteration objects become events
    self.per_iter_events(mst, st, res_st, count, exit_cl, idx, mark)
    outcomes = []
    alive = TRUE
    if raises:
      if loop_t is not None and (tm.frees(raise_c) & lvset):
        flag = T('truthy', T('out', loop_t, 'raised'))
        outcomes.append((flag, 'raise', raises[0][1], st))
        alive = and_(alive, not_(flag))
      else:
        from .calls import mk_exists
        by_exc = {}
        for c, v, s in raises:
          by_exc[v] = or_(by_exc.get(v, FALSE), c)
        for v, c in by_exc.items():
          flag = mk_exists(count, exit_cl, tm.close(c, [idx]))
          outcomes.append((and_(alive, flag), 'raise', v, st))
          alive = and_(alive, not_(flag))
    for j, (c, v, s) in enumerate(rets):
      if loop_t is not None and ((tm.frees(c) | tm.frees(exit_c) | tm.frees(v)) & lvset):
        flag = T('truthy', T('out', loop_t, 'ret%d' % j))
        val = T('out', loop_t, 'retval%d' % j, cd.type_of(v))
      else:
        from .calls import mk_exists
        others = exit_c
        if len(rets) == 1 and brk_c is FALSE:
          flag = mk_exists(count, FALSE, tm.close(c, [idx]))
        else:
          flag = mk_exists(count, exit_cl, tm.close(c, [idx]))
        if idx in tm.frees(v):
          val = T('first', count, T('lam', 1, exit_cl), T('lam', 1, tm.close(v, [idx])))
        else:
          val = v
      if flag is FALSE:
        continue
      s2 = res_st.fork()
      f = s2.facts.assume(and_(alive, flag))
      if f is not None:
        s2.facts = f
      outcomes.append((and_(alive, flag), 'ret', val, s2))
      alive = and_(alive, not_(flag))
    if alive is FALSE:
      return outcomes
    f = res_st.facts.assume(alive)
    if f is None:
      return outcomes
    res_st.facts = f
    real_brks = [b for b in brks if b[1] != 'test']
    if count is INF or not real_brks:
      if count is INF and not brks:
        return outcomes
      sig = 'next'
      if real_brks and all(b[1] == 'inner' for b in real_brks):
        sig = 'next'
      outcomes.append((alive, sig, None, res_st))
    else:
      from .calls import mk_exists
      if loop_t is not None and (tm.frees(exit_c) & lvset):
        flag = T('truthy', T('out', loop_t, 'brk'))
      else:
        flag = mk_exists(count, FALSE, exit_cl) if not rets else mk_exists(count, exit_cl, tm.close(brk_c, [idx]))
      if all(b[1] == 'inner' for b in real_brks):
        outcomes.append((alive, 'next', None, res_st))
      elif flag is TRUE:
        outcomes.append((alive, 'brk', None, res_st))
      else:
        self.want_brk = True
        s1, s2 = res_st, res_st.fork()
        outcomes.append((and_(alive, flag), 'brk', None, s1))
        outcomes.append((and_(alive, not_(flag)), 'next', None, s2))
    return outcomes

  def iters(self, count, exit_c, idx, loop_t, v):
    return T('iters', count, T('lam', 1, tm.close(exit_c, [idx])), loop_t if loop_t is not None else NONE)

  def per_iter_events(self, mst, st, res_st, count, exit_cl, idx, mark):
    evs = []
    for k, v in sorted(mst.cells.items(), key=lambda kv: str(kv[0][0]) + tm.show(kv[0][1]) if len(kv[0]) > 1 and isinstance(kv[0][1], T) else str(kv[0])):
      if k[0] in ('a', 'c') and k not in st.cells and isinstance(k[1], T) and idx in tm.frees(k[1]) \
          and not any(x.op == 'ref' for x in tm.frees(k[1])):
        if v is default_cell(k):
          continue
        evs.append(T('e', T('setcell', T('attr', k[1], k[2]) if k[0] == 'a' else k[1], self.reify(v, mst))))
    if evs:
      cur = res_st.cells.get(('ev',), tm.lst(()))
      segs = tm.close(tm.lst(tuple(evs)), [idx]).args[0]
      res_st.cells[('ev',)] = tm.lst(tm.lst_segs(cur) + (T('L', count, exit_cl, segs),))

  # --------------------------------------------------------------------- delta
  def delta(self, v, lv, init, exit_c):
    """Closed-form shape of v relative to lv: (kind, delta) or None."""
    if v.op in ('lst', 'dct', 'set') and init.op in ('lst', 'dct', 'set'):
      segs = v.args[0]
      if segs and segs[0].op == 'x' and segs[0].args[0] is lv:
        rest = T(v.op if v.op != 'lst' else 'lst', segs[1:])
        if lv not in tm.frees(rest):
          return (init.op, rest)
      return None
    if lv not in tm.frees(v):
      return None
    if v is lv:
      return None
    d = str_delta(v, lv)
    if d is not None and lv not in tm.frees(d) and (cd.type_of(lv) == cd.STR or cd.type_of(init) == cd.STR):
      return ('str', d)
    d = num_delta(v, lv)
    if d is not None and lv not in tm.frees(d) and cd.type_of(init) in (cd.INT, cd.FLOAT):
      return ('num', d)
    # boolean accumulators
    if cd.type_of(init) == cd.BOOL:
      t = cd.truth(v)
      lt = cd.truth(lv)
      a = tm.replace_terms(t, {lt: TRUE})
      b = tm.replace_terms(t, {lt: FALSE})
      if a is TRUE and lv not in tm.frees(b):
        return ('or', b)
      if b is FALSE and lv not in tm.frees(a):
        return ('and', a)
    if v.op in ('max', 'min') and lv in v.args[0]:
      rest = tuple(x for x in v.args[0] if x is not lv)
      if len(rest) == 1 and lv not in tm.frees(rest[0]):
        return (v.op, rest[0])
    # set only in the leaving iteration
    if exit_c is not FALSE:
      x = first_delta(v, lv, exit_c)
      if x is not None and lv not in tm.frees(x):
        return ('first', x)
    return None


def first_delta(v, lv, exit_c):
  f = cd.Facts()
  a = f.assume(exit_c, True)
  b = f.assume(exit_c, False)
  if a is None or b is None:
    return None
  if b.simp(v) is lv:
    return a.simp(v)
  return None


def str_delta(v, lv):
  if v is lv:
    return tm.EMPTY_STR
  if v.op == 'cat' and v.args[0][0] is lv:
    return tm.cat(*v.args[0][1:])
  if v.op == 'ite':
    a, b = str_delta(v.args[1], lv), str_delta(v.args[2], lv)
    if a is not None and b is not None:
      return ite(v.args[0], a, b)
  return None


def num_delta(v, lv):
  if v is lv:
    return ZERO
  if v.op == 'poly':
    d = tm.poly_dict(v)
    if d.get(((lv, 1),)) == 1:
      return tm.sub(v, lv)
    return None
  if v.op == 'ite':
    a, b = num_delta(v.args[1], lv), num_delta(v.args[2], lv)
    if a is not None and b is not None:
      return ite(v.args[0], a, b)
  return None


def rebuild_container(init, segs):
  if init.op == 'lst':
    return tm.lst(init.args[0] + tuple(segs))
  if init.op in ('dct', 'set'):
    return T(init.op, init.args[0] + tuple(segs))
  return tm.lst((T('x', init),) + tuple(segs))


def _ckey(k):
  out = []
  for x in k:
    if isinstance(x, T):
      out.append((1, x.args[0] if x.op == 'ref' else 0, tm.show(x)))
    elif isinstance(x, int):
      out.append((0, x, ''))
    else:
      out.append((2, 0, str(x)))
  return tuple(out)


def _norm(s):
  import re
  return re.sub(r'(\d+)', lambda m: '%08d' % int(m.group(1)), s)

"""Abstract states: a finite map from cells to value terms, plus facts."""
from . import terms as tm
from . import conds as cd
from .terms import T, TRUE, FALSE, NONE, ite, and_, or_, not_

UNDEF = T('undef')


class Ctx:
  """Allocation metadata shared by the states of one analysis."""

  def __init__(self):
    self.ref_kind = {}
    self.next_ref = 0
    self.next_frame = 0


class State:
  __slots__ = ('cells', 'facts', 'exits', 'dead')

  def __init__(self):
    self.cells = {}
    self.facts = cd.Facts()
    self.exits = []
    self.dead = False

  def fork(self):
    s = State()
    s.cells = dict(self.cells)
    s.facts = self.facts
    s.exits = []
    s.dead = self.dead
    return s


def default_cell(key):
  if key[0] == 'a':
    from .seqops import mk_attr
    return mk_attr(key[1], key[2])
  if key[0] == 'c':
    return key[1]
  if key[0] == 'ev':
    return tm.lst(())
  return UNDEF


def merge_val(c, a, b):
  if a is b:
    return a
  if a.op == 'lst' and b.op == 'lst':
    return tm.lst(tm.br(c, a.args[0], b.args[0]))
  if a.op == 'dct' and b.op == 'dct':
    return tm.dct(tm.br(c, a.args[0], b.args[0]))
  if a.op == 'set' and b.op == 'set':
    return tm.mkset(tm.br(c, a.args[0], b.args[0]))
  if a is UNDEF or b is UNDEF:
    return T('ite', c, a, b) if c.op not in ('const',) else (a if c is TRUE else b)
  return ite(c, a, b)


def merge_cells(c, s1, s2):
  out = {}
  c1, c2 = s1.cells, s2.cells
  for k, v in c1.items():
    w = c2.get(k)
    if w is v:
      out[k] = v
    elif w is None:
      if k[0] in ('a', 'c', 'ev'):
        out[k] = merge_val(c, v, default_cell(k))
      elif k[0] in ('o', 'f'):
        out[k] = v
      else:
        out[k] = merge_val(c, v, UNDEF)
    else:
      out[k] = merge_val(c, v, w)
  for k, w in c2.items():
    if k not in c1:
      if k[0] in ('a', 'c', 'ev'):
        out[k] = merge_val(c, default_cell(k), w)
      elif k[0] in ('o', 'f'):
        out[k] = w
      else:
        out[k] = merge_val(c, UNDEF, w)
  return out


def merge_states(c, s1, s2, base_facts):
  s = State()
  s.cells = merge_cells(c, s1, s2)
  s.facts = base_facts
  return s


def merge_many(items, base_facts):
  """items: [(cond, state)] mutually exclusive; returns (cond, state)."""
  cond, st = items[-1]
  acc = State()
  acc.cells = st.cells
  acc.facts = st.facts if len(items) == 1 else base_facts
  tot = cond
  for c, s in reversed(items[:-1]):
    acc = merge_states(c, s, acc, base_facts)
    tot = or_(c, tot)
  if len(items) > 1:
    f = base_facts.assume(tot)
    if f is not None:
      acc.facts = f
  return tot, acc

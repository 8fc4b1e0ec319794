"""Parses the analysed source tree and resolves names statically."""
import ast
import os


class FuncInfo:

  def __init__(self, module, node, qual, cls=None):
    self.module = module
    self.node = node
    self.qual = qual          # 'pkg.mod:func' or 'pkg.mod:Cls.func'
    self.cls = cls

  def __repr__(self):
    return '<F %s>' % self.qual


class ClassInfo:

  def __init__(self, module, node, qual):
    self.module = module
    self.node = node
    self.qual = qual
    self.name = node.name
    self.methods = {}
    self.fields = []          # [(name, annotation node, default node|None)]
    self.members = []         # enum members in order
    self.member_vals = {}
    self.class_vars = {}
    self.props = set()
    self.statics = set()
    self.classmethods = set()
    self.kind = 'plain'
    self.frozen = False
    self.bases = []
    self._scan()

  def _scan(self):
    n = self.node
    bases = [_dotted(b.value if isinstance(b, ast.Subscript) else b) or '' for b in n.bases]
    self.bases = bases
    for d in n.decorator_list:
      name = _dotted(d.func if isinstance(d, ast.Call) else d) or ''
      if name.split('.')[-1] in ('dataclass', 'define', 'frozen'):
        self.kind = 'dataclass'
        if isinstance(d, ast.Call):
          for k in d.keywords:
            if k.arg == 'frozen' and isinstance(k.value, ast.Constant) and k.value.value:
              self.frozen = True
    for b in bases:
      last = b.split('.')[-1]
      if last in ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum'):
        self.kind = 'enum'
      elif last == 'NamedTuple':
        self.kind = 'namedtuple'
        self.frozen = True
      elif last in ('Exception', 'ValueError', 'RuntimeError') or last.endswith('Error'):
        self.kind = 'exception'
    for s in n.body:
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        self.methods[s.name] = FuncInfo(self.module, s, self.qual + '.' + s.name, self)
        for d in s.decorator_list:
          dn = (_dotted(d.func if isinstance(d, ast.Call) else d) or '').split('.')[-1]
          if dn in ('property', 'cached_property'):
            self.props.add(s.name)
          elif dn == 'staticmethod':
            self.statics.add(s.name)
          elif dn == 'classmethod':
            self.classmethods.add(s.name)
      elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
        self.fields.append((s.target.id, s.annotation, s.value))
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name):
            if self.kind == 'enum':
              if not t.id.startswith('_'):
                self.members.append(t.id)
                self.member_vals[t.id] = s.value
            else:
              self.class_vars[t.id] = s.value


class Module:

  def __init__(self, name, path, tree, source):
    self.name = name
    self.path = path
    self.tree = tree
    self.source = source
    self.defs = {}       # name -> ('func', FuncInfo) | ('class', ClassInfo) | ('assign', node) | ('import', dotted)
    self._scan_body(tree.body)

  def _scan_body(self, body):
    for s in body:
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        self.defs[s.name] = ('func', FuncInfo(self, s, self.name + ':' + s.name))
      elif isinstance(s, ast.ClassDef):
        self.defs[s.name] = ('class', ClassInfo(self, s, self.name + ':' + s.name))
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name):
            self.defs[t.id] = ('assign', s.value)
          elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple):
            for a, b in zip(t.elts, s.value.elts):
              if isinstance(a, ast.Name):
                self.defs[a.id] = ('assign', b)
      elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
        self.defs[s.target.id] = ('assign', s.value)
      elif isinstance(s, ast.Import):
        for a in s.names:
          if a.asname:
            self.defs[a.asname] = ('import', a.name)
          else:
            root = a.name.split('.')[0]
            self.defs[root] = ('import', root)
      elif isinstance(s, ast.ImportFrom):
        base = s.module or ''
        if s.level:
          pk = self.name.split('.')
          pk = pk[:len(pk) - s.level]
          base = '.'.join(pk + ([base] if base else []))
        for a in s.names:
          self.defs[a.asname or a.name] = ('import', base + '.' + a.name)
      elif isinstance(s, (ast.If, ast.Try)):
        self._scan_body(s.body)
        for part in ('orelse', 'finalbody'):
          self._scan_body(getattr(s, part, []) or [])


def _dotted(n):
  if isinstance(n, ast.Name):
    return n.id
  if isinstance(n, ast.Attribute):
    b = _dotted(n.value)
    return b + '.' + n.attr if b else None
  return None


dotted = _dotted


class Repo:

  def __init__(self, roots):
    """roots: list of (directory, package name)."""
    self.modules = {}
    self.broken = []
    for d, pkg in roots:
      base = os.path.join(d, pkg)
      for dp, dn, fn in sorted(os.walk(base)):
        dn[:] = sorted(x for x in dn if x != '__pycache__')
        for f in sorted(fn):
          if not f.endswith('.py'):
            continue
          path = os.path.join(dp, f)
          rel = os.path.relpath(path, d)[:-3].replace(os.sep, '.')
          if rel.endswith('.__init__'):
            rel = rel[:-len('.__init__')]
          try:
            src = open(path, encoding='utf-8').read()
            tree = ast.parse(src, filename=path)
          except (SyntaxError, UnicodeDecodeError) as e:
            self.broken.append((path, str(e)))
            continue
          self.modules[rel] = Module(rel, path, tree, src)

  def resolve_dotted(self, dotted_name, depth=0):
    """Dotted global name -> ('func'|'class'|'assign'|'mod'|'ext', obj, module)."""
    if depth > 20:
      return ('ext', dotted_name, None)
    if dotted_name in self.modules:
      return ('mod', self.modules[dotted_name], None)
    parts = dotted_name.split('.')
    for i in range(len(parts) - 1, 0, -1):
      m = '.'.join(parts[:i])
      if m in self.modules:
        mod = self.modules[m]
        return self._member_path(mod, parts[i:], depth)
    return ('ext', dotted_name, None)

  def _member_path(self, mod, path, depth):
    r = self.lookup(mod, path[0], depth + 1)
    if r is None:
      return ('ext', mod.name + '.' + '.'.join(path), None)
    rest = path[1:]
    while rest:
      kind, obj, m = r
      if kind == 'mod':
        r = self.lookup(obj, rest[0], depth + 1)
        if r is None:
          return ('ext', obj.name + '.' + '.'.join(rest), None)
      elif kind == 'class':
        return ('clsattr', (obj, rest), m)
      elif kind == 'ext':
        return ('ext', obj + '.' + '.'.join(rest), None)
      else:
        return ('ext', '.'.join(path), None)
      rest = rest[1:]
    return r

  def lookup(self, mod, name, depth=0):
    d = mod.defs.get(name)
    if d is None:
      return None
    kind, obj = d
    if kind == 'import':
      return self.resolve_dotted(obj, depth + 1)
    return (kind, obj, mod)

  def func(self, ref):
    """'pkg.mod:name' or 'pkg.mod:Cls.name' -> FuncInfo or None."""
    m, q = ref.split(':')
    mod = self.modules.get(m)
    if mod is None:
      return None
    parts = q.split('.')
    r = self.lookup(mod, parts[0])
    if r is None:
      return None
    if r[0] == 'func' and len(parts) == 1:
      return r[1]
    if r[0] == 'class' and len(parts) == 2:
      return self.find_method(r[1], parts[1])
    return None

  def cls(self, ref):
    m, q = ref.split(':')
    mod = self.modules.get(m)
    if mod is None:
      return None
    r = self.lookup(mod, q)
    return r[1] if r and r[0] == 'class' else None

  def base_classes(self, ci):
    out = []
    for b in ci.bases:
      r = self.resolve_in(ci.module, b)
      if r and r[0] == 'class':
        out.append(r[1])
    return out

  def resolve_in(self, mod, dotted_name):
    parts = dotted_name.split('.')
    r = self.lookup(mod, parts[0])
    if r is None:
      return None
    for p in parts[1:]:
      kind, obj, m = r
      if kind == 'mod':
        r = self.lookup(obj, p)
      elif kind == 'ext':
        r = ('ext', obj + '.' + p, None)
      elif kind == 'class':
        r = ('clsattr', (obj, [p]), m)
      else:
        return None
      if r is None:
        return None
    return r

  def mro(self, ci):
    out, todo = [], [ci]
    while todo:
      c = todo.pop(0)
      if c in out:
        continue
      out.append(c)
      todo.extend(self.base_classes(c))
    return out

  def find_method(self, ci, name):
    for c in self.mro(ci):
      if name in c.methods:
        return c.methods[name]
    return None

  def all_fields(self, ci):
    """Dataclass / namedtuple fields with inheritance."""
    fields = []
    for c in reversed(self.mro(ci)):
      for f in c.fields:
        fields = [g for g in fields if g[0] != f[0]] + [f + (c,)]
    return fields

  def is_prop(self, ci, name):
    for c in self.mro(ci):
      if name in c.methods:
        return name in c.props
    return False

  def kind(self, ci):
    for c in self.mro(ci):
      if c.kind != 'plain':
        return c.kind
    return 'plain'

  def is_subclass(self, a, b):
    return b in self.mro(a)

"""Pseudo-parser: tokens -> tree."""
from typing import Iterable, List, Optional, Tuple, Union
import re
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
from r_u_sure.parsing.pseudo_parser.stack_parser import Node, NodeType, TokenType, ParseError


def stack_based_bracket_match(tokens: List[int], match_pairs: List[Tuple[int, int]], error_tolerant: bool = False) -> Node:
  openers = tuple(a for a, b in match_pairs)
  closers = tuple(b for a, b in match_pairs)
  opens = dict(zip(closers, openers))
  root = Node(lo=0, hi=len(tokens), parent=None, annotation='root')
  parent: Node = root
  opener_stack: List[int] = []
  for i, token in enumerate(tokens):
    if token in openers:
      pair = Node(lo=i, parent=parent, annotation='paired')
      inside = Node(lo=i + 1, parent=pair, annotation='middle')
      pair.children = [Node(lo=i, hi=i + 1, parent=pair, annotation='left'), inside]
      parent.children.append(pair)
      opener_stack.append(token)
      parent = inside
    elif token not in closers:
      parent.children.append(Node(lo=i, hi=i + 1, parent=parent, annotation='sibling'))
    elif opener_stack:
      if opener_stack[-1] == opens[token]:
        pair = parent.parent
        assert len(pair.children) == 2
        pair.children[1].hi = i
        pair.children.append(Node(lo=i, hi=i + 1, parent=pair, annotation='right'))
        pair.hi = i + 1
        opener_stack.pop()
        parent = pair.parent
      else:
        if not error_tolerant:
          raise ParseError('unmatched closer')
        parent.children.append(Node(lo=i, hi=i + 1, parent=parent, annotation='sibling'))
  if opener_stack and not error_tolerant:
    raise ParseError('unclosed openers')
  return root


def _unzip_pairs(list_of_pairs: List[Tuple[int, int]]):
  return tuple(a for a, _ in list_of_pairs), tuple(b for _, b in list_of_pairs)


def Node__type(self: Node, tokens: List[str], token_types: List[TokenType]) -> NodeType:
  kinds = {'root': NodeType.ROOT, 'paired': NodeType.MATCH, 'left': NodeType.MATCH_LEFT, 'right': NodeType.MATCH_RIGHT,
           'middle': NodeType.MATCH_INNER, 'split': NodeType.SPLIT_GROUP}
  if self.annotation != 'sibling':
    assert self.annotation in kinds
    return kinds[self.annotation]
  assert not self.children
  text = self.text(tokens)
  if not text:
    return NodeType.NON_CONTENT_LEAF
  if sp.ALL_WHITE_SPACE_REGEX.match(text):
    return NodeType.WHITE_SPACE_LEAF
  if all(t == TokenType.STRING for t in token_types[self.lo:self.hi]):
    return NodeType.STRING_LITERAL
  return NodeType.CONTENT_LEAF


def Node__text(self: Node, tokens: List[str]) -> str:
  return ''.join([str(t) for t in tokens[self.lo:self.hi]])


def Node____len__(self: Node) -> int:
  return self.hi - self.lo


def Node____repr__(self: Node) -> str:
  return f'Node({self.lo}-{self.hi}, {self.annotation})'


def Node__copy(cls, root: Node) -> Node:
  def _copy(node: Node) -> Node:
    n = Node(lo=node.lo, hi=node.hi, parent=node.parent, annotation=node.annotation)
    kids = []
    for c in node.children:
      k = _copy(c)
      k.parent = n
      kids.append(k)
    n.children = kids
    return n
  return _copy(root)


def Node__depth_first_traversal(cls, root: Node) -> Iterable[Tuple[Node, int]]:
  def _traverse(node: Node, index: Optional[int]):
    yield node, index
    for i, c in enumerate(node.children):
      yield from _traverse(c, i)
  yield from _traverse(root, None if root.parent is None else root.parent.children.index(root))


def split_parse(root: Node, tokens: List[int], split_tokens: List[int], un_splittable_match_pairs: List[Tuple[int, int]],
                sub_match_pair: Optional[Tuple[int, int]] = None) -> Node:
  root = Node.copy(root)
  if not split_tokens:
    return root
  opn = tuple(a for a, _ in un_splittable_match_pairs)
  cls = tuple(b for _, b in un_splittable_match_pairs)

  def _split(node: Node):
    if node.annotation == 'paired':
      assert len(node.children) == 3
      left = tokens[node.children[0].lo]
      if left in opn and tokens[node.children[-1].hi - 1] == cls[opn.index(left)]:
        return
    kids = node.children
    groups = [[]]
    for c in kids:
      groups[-1].append(c)
      if c.hi - c.lo == 1 and tokens[c.lo] in split_tokens:
        groups.append([])
    if len(groups) > 1 and node.annotation != 'paired':
      new = []
      for g in groups:
        if g:
          n = Node(lo=g[0].lo, hi=g[-1].hi, parent=node, annotation='split')
          n.children = g
          for c in g:
            c.parent = n
          new.append(n)
      node.children = new
    for c in kids:
      if c.hi - c.lo > 1:
        _split(c)

  def _sub_match(node: Node):
    if node.annotation == 'paired':
      assert len(node.children) == 3
      if (tokens[node.children[0].lo] == sub_match_pair[0] and tokens[node.children[-1].hi - 1] == sub_match_pair[1]
          and node.parent is not None and node.parent.parent is not None):
        sib = node.parent.parent.children
        prev = sib[sib.index(node.parent) - 1]
        if node.parent.annotation == 'split' and prev.annotation == 'split' and prev.hi == node.parent.lo:
          yield node.parent, prev
    for c in node.children:
      yield from _sub_match(c)

  def _sub_match_transplant(new_child: Node, new_parent: Node):
    first = Node(lo=new_parent.lo, hi=new_parent.hi, parent=new_parent, annotation='split')
    for c in new_parent.children:
      c.parent = first
    first.children = new_parent.children
    new_parent.children = [first, new_child]
    new_parent.parent.children.remove(new_child)
    new_child.parent = new_parent
    new_parent.hi = new_child.hi

  _split(root)
  if sub_match_pair is not None:
    for ch, pa in list(_sub_match(root)):
      _sub_match_transplant(ch, pa)
  return root


def valid_parse_ranges(root: Node, n: int) -> bool:
  def _check(node: Node) -> bool:
    kids = node.children
    if not kids:
      return True
    if node.lo != kids[0].lo or node.hi != kids[-1].hi:
      return False
    if node.lo is None or node.hi is None:
      return False
    if [k.lo for k in kids[1:]] != [k.hi for k in kids[:-1]]:
      return False
    for k in kids:
      if k.parent != node:
        return False
      if not _check(k):
        return False
    return True
  return root.lo == 0 and root.hi == n and _check(root)


def error_correcting_prefix_and_suffix(tokens: List[int], match_pairs: List[Tuple[int, int]], verbose: bool = False
                                       ) -> Tuple[List[int], List[int]]:
  openers = tuple(a for a, _ in match_pairs)
  closers = tuple(b for _, b in match_pairs)
  opener_of = dict(zip(closers, openers))
  closer_of = dict(zip(openers, closers))
  opener_stack: List[int] = []
  error_correcting_prefix: List[int] = []
  for i, token in enumerate(tokens):
    if token in openers:
      opener_stack.append(token)
    elif token in closers:
      if not opener_stack:
        error_correcting_prefix.append(opener_of[token])
      elif opener_stack[-1] == opener_of[token]:
        opener_stack.pop()
  return list(reversed(error_correcting_prefix)), list(reversed([closer_of[t] for t in opener_stack]))


def RegexCodec____init__(self, token_specification: List[Tuple[str, str]]):
  self.token_specification = token_specification
  self.tok_regex = '|'.join(['(?P<%s>%s)' % pair for pair in token_specification])
  self.token_to_index = {}
  self.index_to_token = {}
  self.index_to_token_type = {}


def RegexCodec__add_token(self, token: str, token_type: TokenType, non_unique: bool = False) -> int:
  if not non_unique:
    assert token not in self.token_to_index
  k = 1 + len(self.token_to_index)
  self.token_to_index[token] = k
  self.index_to_token[k] = token
  self.index_to_token_type[k] = token_type
  return k


def RegexCodec__encode(self, code: str) -> Tuple[List[int], List[TokenType]]:
  tokens = []
  token_types = []
  for match in re.finditer(self.tok_regex, code, re.DOTALL):
    ty = TokenType[match.lastgroup]
    if match.group() not in self.token_to_index:
      self.add_token(match.group(), ty)
    k = self.token_to_index[match.group()]
    assert ty == self.index_to_token_type[k]
    tokens.append(k)
    token_types.append(ty)
  return tokens, token_types


def RegexCodec__decode_token(self, indices: List[int]) -> List[str]:
  return [self.index_to_token[k] for k in indices]


def RegexCodec__decode_type(self, indices: List[int]) -> List[TokenType]:
  return [self.index_to_token_type[k] for k in indices]


def RegexCodec____len__(self) -> int:
  return len(self.token_to_index)


def python_indent_dedent_desugar(root: Node, tokens: List[str], encoded_tokens: List[int], indent_token: int,
                                 dedent_token: int, newline_token: int, spaces_per_indent: int) -> List[int]:
  def _top_level_line_slices():
    first_node_of_line = None
    for n in root.children:
      if not first_node_of_line:
        first_node_of_line = n
      if encoded_tokens[n.hi - 1] == newline_token:
        yield slice(first_node_of_line.lo, n.hi)
        first_node_of_line = None
    if first_node_of_line:
      yield slice(first_node_of_line.lo, first_node_of_line.hi)

  def _line_indent(line_slice):
    line = ''.join(tokens[line_slice])
    if sp.ALL_WHITE_SPACE_REGEX.match(line):
      return None
    return len(sp.LEADING_WHITE_SPACE_REGEX.match(line).group(0)) // spaces_per_indent

  current_indent: int = 0
  output_tokens: List[int] = []
  for line_slice in _top_level_line_slices():
    level = _line_indent(line_slice)
    if level is not None:
      if level > current_indent:
        output_tokens += (level - current_indent) * [indent_token]
      elif level < current_indent:
        nl = output_tokens.pop()
        assert nl == newline_token
        output_tokens.extend((current_indent - level) * [dedent_token])
        output_tokens.append(nl)
      current_indent = level
    output_tokens += encoded_tokens[line_slice]
  if current_indent < 0:
    output_tokens += (-current_indent) * [indent_token]
  elif current_indent > 0:
    nl = output_tokens.pop()
    assert nl == newline_token
    output_tokens.extend(current_indent * [dedent_token])
    output_tokens.append(nl)
  return output_tokens


def PseudoParser____init__(self, match_pairs: List[Tuple[str, str]], split_tokens: List[str],
                           un_splittable_match_pairs: List[Tuple[str, str]], split_types: List[TokenType],
                           codec: sp.RegexCodec, newline_terminate_correction: bool):
  def one(s):
    enc = codec.encode(s)[0]
    assert len(enc) == 1
    return enc[0]
  self.match_pairs = match_pairs
  self.split_tokens = split_tokens
  self.un_splittable_match_pairs = un_splittable_match_pairs
  self.split_types = split_types
  self.codec = codec
  self.newline_terminate_correction = newline_terminate_correction
  self.encoded_match_pairs = [tuple([one(s) for s in pair]) for pair in match_pairs]
  self.encoded_un_splittable_match_pairs = [tuple([one(s) for s in pair]) for pair in un_splittable_match_pairs]
  self.encoded_splitters = [one(s) for s in split_tokens]


def PseudoParser__pseudo_parse(self, code: str):
  enc, types = self.codec.encode(code)
  pre, post = sp.error_correcting_prefix_and_suffix(enc, self.encoded_match_pairs)
  if post and self.newline_terminate_correction:
    post = post + [self.codec.encode('\n')[0][0]]
  full = pre + enc + post
  tokens = self.codec.decode_token(full)
  raw = [''] * len(pre) + self.codec.decode_token(enc) + [''] * len(post)
  all_types = self.codec.decode_type(full)
  tree = sp.stack_based_bracket_match(full, self.encoded_match_pairs, True)
  assert sp.valid_parse_ranges(tree, len(full))
  splitters = self.encoded_splitters + [e for e, t in zip(enc, types) if t in self.split_types]
  tree = sp.split_parse(tree, full, splitters, self.encoded_un_splittable_match_pairs, None)
  assert sp.valid_parse_ranges(tree, len(full))
  return tree, tokens, all_types, raw, (len(pre), len(post))


def PseudoParser__preset(cls, language: str) -> sp.PseudoParser:
  pairs = [('(', ')'), ('[', ']'), ('{', '}')]
  if language == 'python_preprocessor':
    return sp.PseudoParser(pairs, [], [('(', ')'), ('[', ']'), ('[', ']')], [], sp.RegexCodec.preset('python_preprocessor'), True)
  if language == 'simple':
    return sp.PseudoParser(pairs, [';'], [('(', ')'), ('[', ']')], [], sp.RegexCodec.preset('simple'), False)
  if language == 'cpp':
    return sp.PseudoParser(pairs, [';'], [], [TokenType.C_PREPROCESSOR, TokenType.COMMENT_SLASHSLASH, TokenType.COMMENT_SLASHSTAR],
                           sp.RegexCodec.preset('cpp'), False)
  if language == 'java':
    return sp.PseudoParser(pairs, [';'], [], [TokenType.COMMENT_SLASHSLASH, TokenType.COMMENT_SLASHSTAR],
                           sp.RegexCodec.preset('java'), False)
  if language == 'javascript':
    return sp.PseudoParser(pairs, [';'], [], [TokenType.COMMENT_SLASHSLASH, TokenType.COMMENT_SLASHSTAR],
                           sp.RegexCodec.preset('javascript'), False)
  raise Exception('unknown language')


def PseudoParser__parse_and_maybe_preprocess(cls, language: str, code: str, spaces_per_indent: int = 1):
  if language != 'python':
    tree, tokens, types, raw, (n_pre, n_post) = sp.PseudoParser.preset(language).pseudo_parse(code)
    return tree, tokens, types, raw, (n_pre, n_post)
  added = code[-1] != '\n'
  if added:
    code = code + '\n'
  p = cls.preset('python_preprocessor')
  tree, tokens, _, raw, (n_pre, n_post) = p.pseudo_parse(code)
  if added:
    assert raw[-n_post - 1] == '\n'
    raw[-n_post - 1] = ''
  assert len(tokens) == len(raw)
  assert sp.valid_parse_ranges(tree, len(tokens))
  ((nl,), (_,)) = p.codec.encode('\n')
  ind = p.codec.add_token('', TokenType.PYTHON_INDENT, True)
  ded = p.codec.add_token('', TokenType.PYTHON_DEDENT, True)
  enc, _ = p.codec.encode(''.join(tokens))
  des = sp.python_indent_dedent_desugar(tree, tokens, enc, ind, ded, nl, spaces_per_indent)
  des_tokens = p.codec.decode_token(des)
  des_types = p.codec.decode_type(des)

  def fill(raw, des, special):
    n = len(raw) + sum((t in special) for t in des)
    assert n == len(des)
    out = []
    it = iter(raw)
    for t in des:
      out.append('' if t in special else next(it))
    assert len(out) == n
    return out

  des_raw = fill(raw, des, [ind, ded])
  pairs = p.encoded_match_pairs + [(ind, ded)]
  t1 = sp.stack_based_bracket_match(des, pairs, True)
  assert sp.valid_parse_ranges(t1, len(des))
  t2 = sp.split_parse(t1, des, [nl], p.encoded_un_splittable_match_pairs, (ind, ded))
  assert sp.valid_parse_ranges(t2, len(des))
  return t2, des_tokens, des_types, des_raw, (n_pre, n_post)

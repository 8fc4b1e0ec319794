"""Truncation points and docstring positions."""
from typing import Iterable, List, Optional, Tuple, Union
import re
from r_u_sure.parsing.pseudo_parser import stack_parser
from r_u_sure.parsing.pseudo_parser import utilities
from r_u_sure.parsing.pseudo_parser.stack_parser import Node, TokenType


def infer_python_spaces_per_indent(python_code: str, candidate_spaces_per_indent: Iterable[int] = (1, 2, 3, 4)) -> int:
  if not python_code:
    return 1
  _, _, token_types, raw, _ = stack_parser.PseudoParser.parse_and_maybe_preprocess('python', python_code, spaces_per_indent=1)
  indent_lengths = [
      len(t) for kind, before, t in zip(token_types[1:], token_types[:-1], raw[1:])
      if kind == TokenType.WHITE_SPACE and before in (TokenType.PYTHON_INDENT, TokenType.PYTHON_DEDENT) and len(t)]
  if not indent_lengths:
    return 1
  inferred_indent_length = 1
  for candidate in candidate_spaces_per_indent:
    if all([n % candidate == 0 for n in indent_lengths]):
      inferred_indent_length = candidate
  return inferred_indent_length


def find_python_function_docstrings(python_code: str) -> Iterable[int]:
  docstring_re = re.compile(r' *(\"\"\"|\'\'\')')
  function_re = re.compile(r' *def ')
  inferred_indent_length = utilities.infer_python_spaces_per_indent(python_code)
  root, _, _, raw, _ = stack_parser.PseudoParser.parse_and_maybe_preprocess(
      'python', python_code, spaces_per_indent=inferred_indent_length)
  root = Node.copy(root)

  def node_code_fragment(node: Node) -> str:
    return ''.join(raw[node.lo:node.hi])

  def range_code(hi: int) -> str:
    return ''.join(raw[:hi])

  def leading_indents(code_fragment: str) -> int:
    leading_indent_count = 0
    for i in range(inferred_indent_length, len(code_fragment), inferred_indent_length):
      if not code_fragment[(i - inferred_indent_length):i].isspace():
        break
      leading_indent_count = i // inferred_indent_length
    return leading_indent_count

  docstring_indices = []
  for node, _ in Node.depth_first_traversal(root):
    parent = node.parent
    if parent:
      assert node in parent.children
      at = parent.children.index(node)
      if at + 1 < len(parent.children):
        signature = node_code_fragment(node)
        if function_re.match(signature):
          after = parent.children[at + 1]
          body = node_code_fragment(after)
          quote = docstring_re.match(body)
          if quote and leading_indents(body) == leading_indents(signature) + 1:
            docstring_indices.append(len(range_code(after.lo)) + quote.end())
  return docstring_indices


def infer_match_pair_truncation_index(
    root: Node, tokens_raw: List[str], token_types: List[TokenType],
    match_pair: Optional[Tuple[Union[str, TokenType], Union[str, TokenType]]], cursor_position: int) -> Union[int, None]:
  len_code = sum(map(len, tokens_raw))
  if cursor_position == len_code:
    return len_code
  assert cursor_position >= 0 and cursor_position < len_code
  assert match_pair is None or isinstance(match_pair[0], type(match_pair[1]))

  def _traverse(node: Node, match_pair_depth: int):
    yield node, match_pair_depth
    for child in node.children:
      more = 0
      if child.annotation == 'middle':
        left, middle, right = node.children
        assert middle == child
        assert left.annotation == 'left'
        assert right.annotation == 'right'
        if match_pair is None:
          more = 1
        elif isinstance(match_pair[0], TokenType):
          if token_types[left.lo] == match_pair[0]:
            assert token_types[right.lo] == match_pair[1]
            more = 1
        elif tokens_raw[left.lo] == match_pair[0] or tokens_raw[right.lo] == match_pair[1]:
          more = 1
      yield from _traverse(child, match_pair_depth + more)

  code_index = 0
  cursor_match_pair_depth = None
  finished = False
  for node, match_pair_depth in _traverse(root, 0):
    if node.children:
      continue
    if code_index > cursor_position and cursor_match_pair_depth is None:
      cursor_match_pair_depth = match_pair_depth
      if match_pair_depth == 0:
        return None
    if node.hi != node.lo:
      code_index += len(tokens_raw[node.lo])
    if finished:
      return code_index
    if cursor_match_pair_depth is not None and match_pair_depth == cursor_match_pair_depth - 1:
      finished = True
  return None


def infer_split_truncation_index(
    root: Node, tokens_raw: List[str], splitters: Optional[Tuple[str, ...]], cursor_position: int) -> int:
  len_code = sum(map(len, tokens_raw))
  if cursor_position == len_code:
    return len_code
  assert cursor_position >= 0 and cursor_position < len_code
  code_index = 0
  after_cursor = False
  for node, _ in Node.depth_first_traversal(root):
    if node.children:
      continue
    if code_index > cursor_position:
      after_cursor = True
    if node.hi != node.lo:
      code_index += len(tokens_raw[node.lo])
    if (after_cursor and node.parent.annotation == 'split' and node.parent.children[-1] == node and
        tokens_raw[node.lo] in splitters):
      return code_index
  return code_index


def infer_truncation_with_fallbacks(
    code: str, cursor_position: int, language: str, spaces_per_indent: Optional[int] = None) -> int:
  if language == 'python':
    splitters = ('\n',)
    match_pair = (TokenType.PYTHON_INDENT, TokenType.PYTHON_DEDENT)
    if spaces_per_indent is None:
      spaces_per_indent = utilities.infer_python_spaces_per_indent(code)
  else:
    splitters = (';',)
    match_pair = ('{', '}')
  root, _, token_types, tokens_raw, _ = stack_parser.PseudoParser.parse_and_maybe_preprocess(
      language=language, code=code, spaces_per_indent=spaces_per_indent)
  at = utilities.infer_match_pair_truncation_index(root, tokens_raw, token_types, match_pair, cursor_position)
  if at is None:
    at = utilities.infer_split_truncation_index(root, tokens_raw, splitters, cursor_position)
  return at


def infer_truncation_pydocstring(code: str, cursor_position: int) -> Union[int, None]:
  quotes = code[:cursor_position][-3:]
  assert quotes in ['"""', "'''"]
  rest = code[cursor_position:]
  if quotes not in rest:
    return None
  return cursor_position + rest.find(quotes) + len(quotes)

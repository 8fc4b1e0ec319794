"""Traversal and text of nested sequences."""
from typing import Iterable, List, Tuple, Union
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.tree_structure import sequence_node_helpers as h


def compute_depth(node_sequence: List[sn.SequenceNode]) -> int:
  best = 1
  for n in node_sequence:
    if isinstance(n, sn.GroupNode):
      best = max(best, h.compute_depth(n.children) + 1)
  return best


def render_text_contents(node: Union[sn.SequenceNode, List[sn.SequenceNode]]) -> str:
  if isinstance(node, list):
    return ''.join([h.render_text_contents(c) for c in node])
  if isinstance(node, sn.GroupNode):
    return ''.join([h.render_text_contents(c) for c in node.children])
  if isinstance(node, (sn.TextTokenNode, sn.TextDecorationNode)):
    return node.text_contents
  return ''


def walk_with_paths(node_sequence: List[sn.SequenceNode], visit_groups_before: bool = False,
                    visit_groups_after: bool = False, prefix: sn.NestedNodePath = sn.NestedNodePath.root()
                    ) -> Iterable[Tuple[sn.SequenceNode, sn.NestedNodePath, h.WalkTag]]:
  for i, n in enumerate(node_sequence):
    at = prefix.extended_with(i)
    if not isinstance(n, sn.GroupNode):
      yield n, at, h.WalkTag.LEAF
      continue
    if visit_groups_before:
      yield n, at, h.WalkTag.GROUP_BEFORE_CHILDREN
    yield from h.walk_with_paths(n.children, visit_groups_before, visit_groups_after, at)
    if visit_groups_after:
      yield n, at, h.WalkTag.GROUP_AFTER_CHILDREN


def render_debug(node: Union[sn.SequenceNode, List[sn.SequenceNode]]) -> str:
  lines = []
  if isinstance(node, list):
    for c in node:
      lines += h._render_debug_helper(c)[1]
  else:
    lines = h._render_debug_helper(node)[1]
  return '\n'.join(lines)


def _summarize_contents(contents: str) -> str:
  return repr(contents) if len(contents) <= 80 else repr(contents[:77]) + '...'


def _render_debug_helper(node: sn.SequenceNode) -> Tuple[str, List[str]]:
  if isinstance(node, sn.TextDecorationNode):
    return node.text_contents, ['DEC: ' + h._summarize_contents(node.text_contents)]
  if isinstance(node, sn.TextTokenNode):
    head = 'TOK: ' if node.match_type is None else f'TOK({node.match_type}): '
    return node.text_contents, [head + h._summarize_contents(node.text_contents)]
  if isinstance(node, sn.GroupNode):
    texts = []
    lines = []
    for c in node.children:
      t, ls = h._render_debug_helper(c)
      texts.append(t)
      lines += ls
    text = ''.join(texts)
    head = 'GROUP: ' if node.match_type is None else f'GROUP({node.match_type}): '
    return text, [head + h._summarize_contents(text)] + ['  ' + ln for ln in lines]
  return '', [str(node)]

"""Packed storage of token trees."""
from typing import Optional
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.tree_structure import packed_sequence_nodes as packed
from r_u_sure.tree_structure.packed_sequence_nodes import (
    InOrderTraversalCategory, InOrderTraversalItem, PackedGroupNode, PackedSequenceNodeCategory as Category, PackedSequenceNodeID,
    PackedSequenceNodeStorage, PackedTextDecorationNode, PackedTextTokenNode, PositionInParent)


def PackedSequenceNodeStorage__node_id_from_node_path(self: PackedSequenceNodeStorage, node_path: sn.NestedNodePath) -> PackedSequenceNodeID:
  if len(node_path.path) == 0:
    raise ValueError('empty path')
  return self.subsequence_from_node_path(sn.NestedNodePath(path=node_path.path[:-1]))[node_path.path[-1]]


def PackedSequenceNodeStorage__subsequence_from_node_path(
    self: PackedSequenceNodeStorage, sequence_path: sn.NestedNodePath) -> list[PackedSequenceNodeID]:
  the_sequence = self.root_sequence
  for position in sequence_path.path:
    if not 0 <= position < len(the_sequence):
      raise ValueError('invalid path')
    the_id = the_sequence[position]
    if the_id.category != Category.GROUP_NODE:
      raise ValueError('not a group')
    the_sequence = self.group_nodes[the_id.index_in_category].children_ids
  return the_sequence


def PackedSequenceNodeStorage__path_from_preorder_index(self: PackedSequenceNodeStorage, preorder_index: int) -> sn.NestedNodePath:
  reversed_path = []
  while preorder_index != -1:
    info = self.parents_and_offsets_from_preorder[preorder_index]
    reversed_path.append(info.index_of_child_in_parent)
    preorder_index = info.parent_preorder_index
  return sn.NestedNodePath(path=tuple(reversed(reversed_path)))


def pack(nodes: list[sn.SequenceNode], as_numba_typed: bool = False, match_type_numba_type=None) -> PackedSequenceNodeStorage:
  if as_numba_typed:
    assert match_type_numba_type is not None
  result = PackedSequenceNodeStorage(
      root_sequence=[], preorder_traversal=[], text_decoration_nodes=[], text_token_nodes=[], group_nodes=[],
      parents_and_offsets_from_preorder=[], level_from_preorder=[], depth=-1)
  max_level = 0

  def preorder_traversal(node: sn.SequenceNode, position_in_parent: PositionInParent, level: int) -> PackedSequenceNodeID:
    nonlocal max_level
    max_level = max(max_level, level)
    at = len(result.preorder_traversal)
    kids = None
    if isinstance(node, sn.TextDecorationNode):
      node_id = PackedSequenceNodeID(at, Category.TEXT_DECORATION_NODE, len(result.text_decoration_nodes))
      result.text_decoration_nodes.append(PackedTextDecorationNode(node.text_contents))
    elif isinstance(node, sn.TextTokenNode):
      node_id = PackedSequenceNodeID(at, Category.TEXT_TOKEN_NODE, len(result.text_token_nodes))
      result.text_token_nodes.append(PackedTextTokenNode(node.text_contents, node.match_type))
    elif isinstance(node, sn.GroupNode):
      node_id = PackedSequenceNodeID(at, Category.GROUP_NODE, len(result.group_nodes))
      kids = []
      result.group_nodes.append(PackedGroupNode(kids, node.match_type))
    elif isinstance(node, sn.RegionStartNode):
      node_id = PackedSequenceNodeID(at, Category.REGION_START_NODE, -1)
    elif isinstance(node, sn.RegionEndNode):
      node_id = PackedSequenceNodeID(at, Category.REGION_END_NODE, -1)
    elif isinstance(node, sn.EarlyExitNode):
      node_id = PackedSequenceNodeID(at, Category.EARLY_EXIT_NODE, -1)
    else:
      raise ValueError('invalid node')
    result.preorder_traversal.append(node_id)
    result.parents_and_offsets_from_preorder.append(position_in_parent)
    result.level_from_preorder.append(level)
    if isinstance(node, sn.GroupNode):
      for i, child in enumerate(node.children):
        kids.append(preorder_traversal(child, PositionInParent(at, i), level=level + 1))
    return node_id

  for i, node in enumerate(nodes):
    node_id = preorder_traversal(node, PositionInParent(-1, i), level=0)
    result.root_sequence.append(node_id)
  return PackedSequenceNodeStorage(
      root_sequence=result.root_sequence, preorder_traversal=result.preorder_traversal,
      text_decoration_nodes=result.text_decoration_nodes, text_token_nodes=result.text_token_nodes, group_nodes=result.group_nodes,
      parents_and_offsets_from_preorder=result.parents_and_offsets_from_preorder, level_from_preorder=result.level_from_preorder,
      depth=max_level + 1)


def unpack(storage: PackedSequenceNodeStorage) -> list[sn.SequenceNode]:
  def build(node_id: PackedSequenceNodeID) -> sn.SequenceNode:
    at = node_id.index_in_category
    if node_id.category == Category.TEXT_DECORATION_NODE:
      return sn.TextDecorationNode(storage.text_decoration_nodes[at].text_contents)
    if node_id.category == Category.TEXT_TOKEN_NODE:
      return sn.TextTokenNode(storage.text_token_nodes[at].text_contents, storage.text_token_nodes[at].match_type)
    if node_id.category == Category.GROUP_NODE:
      return sn.GroupNode([build(x) for x in storage.group_nodes[at].children_ids], storage.group_nodes[at].match_type)
    if node_id.category == Category.REGION_START_NODE:
      return sn.RegionStartNode()
    if node_id.category == Category.REGION_END_NODE:
      return sn.RegionEndNode()
    if node_id.category == Category.EARLY_EXIT_NODE:
      return sn.EarlyExitNode()
    raise ValueError('invalid node id')
  return [build(x) for x in storage.root_sequence]


def render_text_contents_of_node(node_id: PackedSequenceNodeID, storage: PackedSequenceNodeStorage) -> str:
  if node_id.category == Category.TEXT_DECORATION_NODE:
    return storage.text_decoration_nodes[node_id.index_in_category].text_contents
  if node_id.category == Category.TEXT_TOKEN_NODE:
    return storage.text_token_nodes[node_id.index_in_category].text_contents
  if node_id.category == Category.GROUP_NODE:
    return packed.render_text_contents_of_list(storage.group_nodes[node_id.index_in_category].children_ids, storage)
  return ''


def render_text_contents_of_list(node_ids: list[PackedSequenceNodeID], storage: PackedSequenceNodeStorage) -> str:
  return ''.join([packed.render_text_contents_of_node(x, storage) for x in node_ids])


def _make_recursive_in_order_traversal(jit: bool = False):
  def do_in_order_traversal(
      storage: PackedSequenceNodeStorage, node_ids: list[PackedSequenceNodeID], dest: list[InOrderTraversalItem],
      strip_decorations: bool) -> None:
    for node_id in node_ids:
      if node_id.category == Category.GROUP_NODE:
        dest.append(InOrderTraversalItem(InOrderTraversalCategory.BEFORE_GROUP, node_id))
        do_in_order_traversal(
            storage=storage, node_ids=storage.group_nodes[node_id.index_in_category].children_ids, dest=dest,
            strip_decorations=strip_decorations)
        dest.append(InOrderTraversalItem(InOrderTraversalCategory.AFTER_GROUP, node_id))
      elif not (strip_decorations and node_id.category == Category.TEXT_DECORATION_NODE):
        dest.append(InOrderTraversalItem(InOrderTraversalCategory.LEAF, node_id))
  return do_in_order_traversal


def in_order_traversal(storage: PackedSequenceNodeStorage, strip_decorations: bool) -> list[InOrderTraversalItem]:
  result = []
  packed._make_recursive_in_order_traversal(jit=False)(
      storage=storage, node_ids=storage.root_sequence, dest=result, strip_decorations=strip_decorations)
  return result


def _in_order_traversal_numba_overload(storage, strip_decorations):
  fn = packed._make_recursive_in_order_traversal(jit=True)
  def _impl(storage: PackedSequenceNodeStorage, strip_decorations: bool):
    result = []
    fn(storage=storage, node_ids=storage.root_sequence, dest=result, strip_decorations=strip_decorations)
    return result
  return _impl

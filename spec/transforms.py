"""What each sequence transform must compute (reference semantics, never run).

A recursive call is written as a call of the repository's own function: the
analysis keeps it opaque on both sides, so the comparison is the induction step.
"""
from typing import Callable, List
import dataclasses
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.tree_structure import transforms


def flatten_groups(sequence: List[sn.SequenceNode]) -> List[sn.SequenceNode]:
  out = []
  for n in sequence:
    out += transforms.flatten_groups(n.children) if isinstance(n, sn.GroupNode) else [n]
  return out


def flatten_singleton_groups(sequence: List[sn.SequenceNode]) -> List[sn.SequenceNode]:
  return [transforms.flatten_singleton_groups_for_node(n) for n in sequence]


def flatten_singleton_groups_for_node(node: sn.SequenceNode) -> sn.SequenceNode:
  if isinstance(node, sn.GroupNode):
    kids = node.children
    if len(kids) == 1 and isinstance(kids[0], (sn.GroupNode, sn.TextTokenNode)):
      inner = transforms.flatten_singleton_groups_for_node(kids[0])
      assert isinstance(inner, (sn.GroupNode, sn.TextTokenNode))
      return dataclasses.replace(inner, match_type=(node.match_type,) + inner.match_type)
    return sn.GroupNode(children=transforms.flatten_singleton_groups(kids), match_type=(node.match_type,))
  if isinstance(node, sn.TextTokenNode):
    return sn.TextTokenNode(text_contents=node.text_contents, match_type=(node.match_type,))
  return node


def insert_early_exit(sequence: List[sn.SequenceNode], allowed_within_group: bool = True,
                      allowed_at_start: bool = True) -> List[sn.SequenceNode]:
  out = [sn.EarlyExitNode()] if allowed_at_start else []
  for n in sequence:
    if isinstance(n, sn.GroupNode) and allowed_within_group:
      out.append(dataclasses.replace(n, children=transforms.insert_early_exit(n.children, True, False)))
    else:
      out.append(n)
    if isinstance(n, (sn.GroupNode, sn.TextTokenNode)):
      out.append(sn.EarlyExitNode())
  return out


def insert_region_options_around_subsequences(
    sequence: List[sn.SequenceNode], allow_empty_regions: bool = True,
    node_filter: Callable[[sn.SequenceNode], bool] = lambda _: True) -> List[sn.SequenceNode]:
  out = []
  for n in sequence:
    if isinstance(n, sn.GroupNode):
      body = dataclasses.replace(n, children=transforms.insert_region_options_around_subsequences(
          n.children, allow_empty_regions, node_filter))
    else:
      body = n
    if isinstance(n, (sn.GroupNode, sn.TextTokenNode)) and node_filter(n):
      out.append(sn.RegionStartNode())
      if allow_empty_regions:
        out.append(sn.RegionEndNode())
      out.append(body)
      out.append(sn.RegionEndNode())
    else:
      out.append(body)
  if allow_empty_regions:
    out += [sn.RegionStartNode(), sn.RegionEndNode()]
  return out


def insert_region_options_around_single_nodes(sequence: List[sn.SequenceNode]) -> List[sn.SequenceNode]:
  out = []
  for n in sequence:
    if isinstance(n, sn.GroupNode):
      body = dataclasses.replace(n, children=transforms.insert_region_options_around_single_nodes(n.children))
      out.append(sn.GroupNode([sn.RegionStartNode(), body, sn.RegionEndNode()], "region_scope"))
    elif isinstance(n, sn.TextTokenNode):
      out.append(sn.GroupNode([sn.RegionStartNode(), n, sn.RegionEndNode()], "region_scope"))
    else:
      out.append(n)
  return out


def strip_decision_nodes(sequence: List[sn.SequenceNode]) -> List[sn.SequenceNode]:
  out = []
  for n in sequence:
    if isinstance(n, sn.GroupNode):
      out.append(dataclasses.replace(n, children=transforms.strip_decision_nodes(n.children)))
    elif isinstance(n, (sn.TextTokenNode, sn.TextDecorationNode)):
      out.append(n)
    elif not isinstance(n, (sn.RegionStartNode, sn.RegionEndNode, sn.EarlyExitNode)):
      raise ValueError
  return out


def truncate_prefix_at_offset(sequence: List[sn.SequenceNode], start_offset: int) -> List[sn.SequenceNode]:
  kept = False
  seen = 0

  def cut(nodes: List[sn.SequenceNode]):
    nonlocal kept, seen
    for n in nodes:
      if isinstance(n, sn.GroupNode):
        kids = list(cut(n.children))
        if kept:
          yield dataclasses.replace(n, children=kids)
        else:
          assert not kids
      elif isinstance(n, (sn.TextTokenNode, sn.TextDecorationNode)):
        if kept:
          yield n
        elif start_offset - seen < len(n.text_contents):
          yield dataclasses.replace(n, text_contents=n.text_contents[start_offset - seen:])
          kept = True
          seen = None
        elif start_offset - seen == len(n.text_contents):
          kept = True
          seen = None
        else:
          seen += len(n.text_contents)
      elif isinstance(n, (sn.RegionStartNode, sn.RegionEndNode, sn.EarlyExitNode)):
        if kept:
          yield n
      else:
        raise ValueError(n)

  return list(cut(sequence))

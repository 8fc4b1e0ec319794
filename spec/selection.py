"""Reference: the graph of ways to select parts of a suggestion and match them to a target."""
from __future__ import annotations
import itertools
import numba
from r_u_sure.decision_diagrams import gated_state_dag as gd
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import part_selection_dags as p
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.numba_helpers import numba_raise
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import sequence_nodes

Cat = p.DagStateCategory
State = p.PartSelectionDagState
Info = p.PartSelectionDagEdgeInfo
Value = rd.DecisionValue
Kind = rd.DecisionCategory
Node = psn.PackedSequenceNodeCategory
Visit = psn.InOrderTraversalCategory


def DagStateCategory__shortname(self: p.DagStateCategory):
  if self == Cat.SKIP_UNSELECTED_IN_PROTOTYPE:
    return 'Skip Prototype'
  if self == Cat.SKIP_IN_TARGET:
    return 'Skip Target'
  if self == Cat.SELECT_UNMATCHED:
    return 'Unmatched'
  if self == Cat.SELECT_MATCHED:
    return 'Matched'
  if self == Cat.SPECIAL_FINAL_STATE:
    return 'Final State'
  raise ValueError(self)


def deciding(node, kind, value):
  return gd.SharedVariableAssignment(rd.DecisionKey(node.preorder_index, kind), value)


def membership(visit, value):
  """A node is decided on once: at its token, or where its group starts."""
  node = visit.node_id
  if node.category == Node.GROUP_NODE and visit.category == Visit.AFTER_GROUP:
    return None
  return deciding(node, Kind.NODE_IN_REGION, value)


def make_selection_dag_builder(parameters: p.PartSelectionUtilityParameters, with_numba: bool = False):
  maybe_jit = numba.njit if with_numba else lambda fn: fn
  token_node_utility_fn = parameters.token_node_utility_fn

  def construct_selection_dag(prototype: psn.PackedSequenceNodeStorage, target: psn.PackedSequenceNodeStorage):
    if with_numba:
      incomplete_graph = gd.PartialStateDAG(
          initial_state=State(Cat.SKIP_UNSELECTED_IN_PROTOTYPE, 0, 0), edges=numba.typed.List.empty_list(p.EDGE_NUMBA_TYPE),
          seen_outgoing=numba.typed.Dict.empty(p.STATE_NUMBA_TYPE, p.STATE_NUMBA_TYPE))
    else:
      incomplete_graph = gd.partial_state_dag_starting_from(State(Cat.SKIP_UNSELECTED_IN_PROTOTYPE, 0, 0))
    _construct_jitted(prototype, target, incomplete_graph)
    return gd.partial_state_dag_finish(incomplete_graph, p.FINAL_STATE)

  def _construct_jitted(prototype: psn.PackedSequenceNodeStorage, target: psn.PackedSequenceNodeStorage,
                        incomplete_graph: gd.PartialStateDAG):
    prototype_in_order = psn.in_order_traversal(prototype, strip_decorations=True)
    target_in_order_extended = psn.in_order_traversal(target, strip_decorations=True)
    # one more place, past the target's end
    target_in_order_extended.append(psn.InOrderTraversalItem(Visit.LEAF, psn.INVALID_NODE_ID))

    for prototype_position, prototype_visit in enumerate(prototype_in_order):
      for target_position, target_visit in enumerate(target_in_order_extended):
        node = prototype_visit.node_id
        other = target_visit.node_id
        skip, seek, matched, unmatched = (Cat.SKIP_UNSELECTED_IN_PROTOTYPE, Cat.SKIP_IN_TARGET, Cat.SELECT_MATCHED, Cat.SELECT_UNMATCHED)

        def at(category, di=0, dj=0):
          return State(category, prototype_position + di, target_position + dj)

        def add(source, dest, cost=0, assignment=None, info=None):
          gd.partial_state_dag_add_edge(incomplete_graph, gd.Edge(source, dest, cost, assignment, info))

        def about(category, i=-1, j=-1):
          return Info(category, i, j)

        here = node.preorder_index
        in_target = other.category == Node.TEXT_TOKEN_NODE or other.category == Node.GROUP_NODE

        if node.category == Node.TEXT_TOKEN_NODE:
          token = prototype.text_token_nodes[node.index_in_category]
          add(at(skip), at(skip, 1), 0, deciding(node, Kind.NODE_IN_REGION, Value.FALSE), about(skip, here))
        elif node.category == Node.GROUP_NODE:
          if prototype_visit.category != Visit.BEFORE_GROUP and prototype_visit.category != Visit.AFTER_GROUP:
            numba_raise.safe_raise(ValueError, ('Invalid visit type for group node:', prototype_visit))
          add(at(skip), at(skip, 1), 0, membership(prototype_visit, Value.FALSE), about(skip, here))
        elif node.category == Node.REGION_END_NODE:
          add(at(skip), at(skip, 1), 0, deciding(node, Kind.REGION_SHOULD_END, Value.NOT_APPLICABLE), about(skip, here))
        elif node.category == Node.REGION_START_NODE:
          add(at(skip), at(skip, 1), 0, deciding(node, Kind.REGION_SHOULD_START, Value.FALSE), about(skip, here))
          add(at(skip), at(seek, 1), 0, deciding(node, Kind.REGION_SHOULD_START, Value.TRUE))
          add(at(skip), at(unmatched, 1), 0, deciding(node, Kind.REGION_SHOULD_START, Value.TRUE))

        if in_target:
          add(at(seek), at(seek, 0, 1), 0, None, about(seek, -1, other.preorder_index))
          add(at(seek), at(matched))

        # what is selected is matched exactly, or pays for not being there
        if node.category == Node.TEXT_TOKEN_NODE:
          token = prototype.text_token_nodes[node.index_in_category]
          if other.category == Node.TEXT_TOKEN_NODE:
            there = target.text_token_nodes[other.index_in_category]
            if token.text_contents == there.text_contents and token.match_type == there.match_type:
              add(at(matched), at(matched, 1, 1), -token_node_utility_fn(token).match_utility,
                  deciding(node, Kind.NODE_IN_REGION, Value.TRUE), about(matched, here, other.preorder_index))
          add(at(unmatched), at(unmatched, 1), token_node_utility_fn(token).delete_cost,
              deciding(node, Kind.NODE_IN_REGION, Value.TRUE), about(unmatched, here))
        elif node.category == Node.GROUP_NODE:
          if other.category == Node.GROUP_NODE and prototype_visit.category == target_visit.category:
            if prototype.group_nodes[node.index_in_category].match_type == target.group_nodes[other.index_in_category].match_type:
              add(at(matched), at(matched, 1, 1), 0, membership(prototype_visit, Value.TRUE), about(matched, here, other.preorder_index))
          add(at(unmatched), at(unmatched, 1), 0.0, membership(prototype_visit, Value.TRUE), about(unmatched, here))
        elif node.category == Node.REGION_START_NODE:
          add(at(matched), at(matched, 1), 0, deciding(node, Kind.REGION_SHOULD_START, Value.NOT_APPLICABLE), about(matched, here))
          add(at(unmatched), at(unmatched, 1), 0.0, deciding(node, Kind.REGION_SHOULD_START, Value.NOT_APPLICABLE), about(unmatched, here))
        elif node.category == Node.REGION_END_NODE:
          add(at(matched), at(skip, 1), 0, deciding(node, Kind.REGION_SHOULD_END, Value.TRUE))
          add(at(matched), at(matched, 1), 0, deciding(node, Kind.REGION_SHOULD_END, Value.FALSE), about(matched, here))
          add(at(unmatched), at(unmatched, 1), 0.0, deciding(node, Kind.REGION_SHOULD_END, Value.FALSE), about(unmatched, here))
          add(at(unmatched), at(skip, 1), 0, deciding(node, Kind.REGION_SHOULD_END, Value.TRUE))

    for target_position in range(len(target_in_order_extended)):
      gd.partial_state_dag_add_edge(incomplete_graph, gd.Edge(
          State(Cat.SKIP_UNSELECTED_IN_PROTOTYPE, len(prototype_in_order), target_position), p.FINAL_STATE, 0))

  return construct_selection_dag


def pack_dag(dag: gd.CompleteStateDAG):
  return packed_dags.convert_dag_to_packed(
      dag=dag, missing_assignment_value=Value.NOT_APPLICABLE, variable_value_ordering=list(Value))


def extract_match_groups(path: list[gd.Edge], prototype: psn.PackedSequenceNodeStorage, target: psn.PackedSequenceNodeStorage):
  """Runs of steps of one kind, with the text they pass over and what they cost."""

  def _get_category(edge):
    return edge.info.category if edge.info else None

  for subpart_category, subpart in itertools.groupby(path, _get_category):
    content_tokens = []
    cost = 0.0
    for edge in subpart:
      cost += edge.cost
      if (subpart_category == Cat.SELECT_MATCHED or subpart_category == Cat.SELECT_UNMATCHED
          or subpart_category == Cat.SKIP_UNSELECTED_IN_PROTOTYPE):
        side, index = prototype, edge.info.prototype_node_preorder_index
      elif subpart_category == Cat.SKIP_IN_TARGET:
        side, index = target, edge.info.target_node_preorder_index
      else:
        continue
      if index != -1:
        node = side.preorder_traversal[index]
        if node.category == Node.TEXT_TOKEN_NODE:
          content_tokens.append(side.text_token_nodes[node.index_in_category].text_contents)
    if cost or content_tokens:
      yield p.PartSelectionGroup(content_tokens=content_tokens, category=subpart_category, cost=cost)

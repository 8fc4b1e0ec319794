"""Reference: the graph of region annotations that a suggestion may carry."""
from __future__ import annotations
import numba
from r_u_sure.decision_diagrams import gated_state_dag as gd
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import constraint_dags as c
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn

Cat = c.ConstraintDagStateCategory
State = c.ConstraintDagState
Value = rd.DecisionValue
Kind = rd.DecisionCategory
Node = psn.PackedSequenceNodeCategory


def ConstraintDagStateCategory__shortname(self: c.ConstraintDagStateCategory):
  if self == Cat.OUTSIDE_ANNOTATED_REGION:
    return 'Outside'
  if self == Cat.IN_REGION_TEMPORARY:
    return 'In region'
  if self == Cat.IN_REGION_FORCED:
    return 'In region (forced)'
  if self == Cat.SPECIAL_FINAL_STATE:
    return 'Final State'
  raise ValueError(self)


def node_in_annotated_region_value(category: c.ConstraintDagStateCategory):
  return Value.FALSE if category == Cat.OUTSIDE_ANNOTATED_REGION else Value.TRUE


def deciding(node, kind, value):
  return gd.SharedVariableAssignment(rd.DecisionKey(node.preorder_index, kind), value)


def make_constraint_dag_builder(with_numba: bool = False):

  def construct_constraint_dag(prototype: psn.PackedSequenceNodeStorage):
    root = psn.ROOT_SEQUENCE_PREORDER_INDEX
    start = State(Cat.OUTSIDE_ANNOTATED_REGION, root, 0, 0)
    if with_numba:
      incomplete_graph = gd.PartialStateDAG(
          initial_state=start, edges=numba.typed.List.empty_list(c.EDGE_NUMBA_TYPE),
          seen_outgoing=numba.typed.Dict.empty(c.STATE_NUMBA_TYPE, c.STATE_NUMBA_TYPE))
    else:
      incomplete_graph = gd.partial_state_dag_starting_from(start)
    build_prototype_subgraph_from_outside_region(prototype, prototype.root_sequence, root, 0, incomplete_graph)
    end = State(Cat.OUTSIDE_ANNOTATED_REGION, root, len(prototype.root_sequence), 0)
    gd.partial_state_dag_add_edge(incomplete_graph, gd.Edge(end, c.FINAL_STATE, cost=0))
    return gd.partial_state_dag_finish(incomplete_graph, c.FINAL_STATE)

  def build_prototype_subgraph_from_outside_region(
      prototype_storage: psn.PackedSequenceNodeStorage, prototype_node_ids: list[psn.PackedSequenceNodeID],
      prototype_sequence_preorder_index: int, outside_region_nesting_level: int, incomplete_graph: gd.PartialStateDAG):
    for position, node in enumerate(prototype_node_ids):
      level = outside_region_nesting_level

      def before(category):
        return State(category, prototype_sequence_preorder_index, position, level)

      def after(category):
        return State(category, prototype_sequence_preorder_index, position + 1, level)

      def add(source, dest, assignment=None, info=None):
        gd.partial_state_dag_add_edge(incomplete_graph, gd.Edge(source, dest, 0, assignment, info))

      outside, inside, forced = Cat.OUTSIDE_ANNOTATED_REGION, Cat.IN_REGION_TEMPORARY, Cat.IN_REGION_FORCED
      if node.category == Node.TEXT_DECORATION_NODE:
        add(before(outside), after(outside))
        add(before(inside), after(inside))
      elif node.category == Node.TEXT_TOKEN_NODE:
        add(before(outside), after(outside), deciding(node, Kind.NODE_IN_REGION, Value.FALSE))
        add(before(inside), after(inside), deciding(node, Kind.NODE_IN_REGION, Value.TRUE))
      elif node.category == Node.GROUP_NODE:
        # outside a region the contents may hold regions of their own, one level deeper
        children = prototype_storage.group_nodes[node.index_in_category].children_ids
        add(before(outside), State(outside, node.preorder_index, 0, level + 1), deciding(node, Kind.NODE_IN_REGION, Value.FALSE))
        build_prototype_subgraph_from_outside_region(prototype_storage, children, node.preorder_index, level + 1, incomplete_graph)
        add(State(outside, node.preorder_index, len(children), level + 1), after(outside))
        # inside one, all of the contents stay inside
        add(before(inside), State(forced, node.preorder_index, 0, level), deciding(node, Kind.NODE_IN_REGION, Value.TRUE))
        build_prototype_subgraph_inside_region(prototype_storage, children, node.preorder_index, level, incomplete_graph)
        add(State(forced, node.preorder_index, len(children), level), after(inside))
      elif node.category == Node.REGION_START_NODE:
        add(before(outside), after(outside), deciding(node, Kind.REGION_SHOULD_START, Value.FALSE))
        add(before(outside), after(inside), deciding(node, Kind.REGION_SHOULD_START, Value.TRUE))
        add(before(inside), after(inside), deciding(node, Kind.REGION_SHOULD_START, Value.NOT_APPLICABLE))
      elif node.category == Node.REGION_END_NODE:
        add(before(inside), after(inside), deciding(node, Kind.REGION_SHOULD_END, Value.FALSE))
        add(before(inside), after(outside), deciding(node, Kind.REGION_SHOULD_END, Value.TRUE))
        add(before(outside), after(outside), deciding(node, Kind.REGION_SHOULD_END, Value.NOT_APPLICABLE))
      elif node.category == Node.EARLY_EXIT_NODE:
        for here in (outside, inside):
          add(before(here), c.FINAL_STATE, deciding(node, Kind.SHOULD_EARLY_EXIT, Value.TRUE), c.ConstraintDagEdgeInfo(True))
          add(before(here), after(here), deciding(node, Kind.SHOULD_EARLY_EXIT, Value.FALSE))

  def build_prototype_subgraph_inside_region(
      prototype_storage: psn.PackedSequenceNodeStorage, prototype_node_ids: list[psn.PackedSequenceNodeID],
      prototype_sequence_preorder_index: int, outside_region_nesting_level: int, incomplete_graph: gd.PartialStateDAG):
    for position, node in enumerate(prototype_node_ids):
      level, forced = outside_region_nesting_level, Cat.IN_REGION_FORCED
      before = State(forced, prototype_sequence_preorder_index, position, level)
      after = State(forced, prototype_sequence_preorder_index, position + 1, level)

      def add(source, dest, assignment=None, info=None):
        gd.partial_state_dag_add_edge(incomplete_graph, gd.Edge(source, dest, 0, assignment, info))

      if node.category == Node.TEXT_DECORATION_NODE:
        add(before, after)
      elif node.category == Node.TEXT_TOKEN_NODE:
        add(before, after, deciding(node, Kind.NODE_IN_REGION, Value.TRUE))
      elif node.category == Node.GROUP_NODE:
        children = prototype_storage.group_nodes[node.index_in_category].children_ids
        add(before, State(forced, node.preorder_index, 0, level), deciding(node, Kind.NODE_IN_REGION, Value.TRUE))
        build_prototype_subgraph_inside_region(prototype_storage, children, node.preorder_index, level, incomplete_graph)
        add(State(forced, node.preorder_index, len(children), level), after)
      elif node.category == Node.REGION_START_NODE:
        add(before, after, deciding(node, Kind.REGION_SHOULD_START, Value.NOT_APPLICABLE))
      elif node.category == Node.REGION_END_NODE:
        add(before, after, deciding(node, Kind.REGION_SHOULD_END, Value.FALSE))
      elif node.category == Node.EARLY_EXIT_NODE:
        add(before, c.FINAL_STATE, deciding(node, Kind.SHOULD_EARLY_EXIT, Value.TRUE), c.ConstraintDagEdgeInfo(True))
        add(before, after, deciding(node, Kind.SHOULD_EARLY_EXIT, Value.FALSE))

  return construct_constraint_dag


def pack_dag(dag: gd.CompleteStateDAG):
  return packed_dags.convert_dag_to_packed(
      dag=dag, missing_assignment_value=Value.NOT_APPLICABLE, variable_value_ordering=list(Value))

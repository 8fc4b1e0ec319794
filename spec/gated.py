"""Gated state graphs."""
import math
import traceback
import numba
import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as g
from r_u_sure.decision_diagrams.gated_state_dag import CompleteStateDAG, Edge, PartialStateDAG, State
from r_u_sure.numba_helpers import numba_raise


def extract_state_list(dag: CompleteStateDAG) -> list[State]:
  seen = set()
  states = []
  for edge in dag.edges:
    for state in (edge.source, edge.dest):
      if state not in seen:
        seen.add(state)
        states.append(state)
  return states


def compute_reachable_states(dag: CompleteStateDAG) -> set[State]:
  relevant_edges = [edge for edge in dag.edges if edge.cost < math.inf]
  forward_reachable = {dag.initial_state}
  for edge in relevant_edges:
    if edge.source in forward_reachable:
      forward_reachable.add(edge.dest)
  backward_reachable = {dag.final_state}
  for edge in reversed(relevant_edges):
    if edge.dest in backward_reachable:
      backward_reachable.add(edge.source)
  return forward_reachable & backward_reachable


def prune_to_reachable(dag: CompleteStateDAG) -> CompleteStateDAG:
  reachable = g.compute_reachable_states(dag)
  return CompleteStateDAG(
      initial_state=dag.initial_state,
      edges=[edge for edge in dag.edges if edge.cost < np.inf and edge.source in reachable and edge.dest in reachable],
      final_state=dag.final_state)


def _prune_to_reachable_overload(dag: CompleteStateDAG):
  def impl(dag: CompleteStateDAG):
    relevant_edges = numba.typed.List()
    for edge in dag.edges:
      if edge.cost < np.inf:
        relevant_edges.append(edge)
    forward_reachable = numba.typed.Dict()
    forward_reachable[dag.initial_state] = True
    for edge in relevant_edges:
      if edge.source in forward_reachable:
        forward_reachable[edge.dest] = True
    backward_reachable = numba.typed.Dict()
    backward_reachable[dag.final_state] = True
    for edge in relevant_edges[::-1]:
      if edge.dest in backward_reachable:
        backward_reachable[edge.source] = True
    edge_subset = numba.typed.List()
    for edge in relevant_edges:
      if edge.source in forward_reachable and edge.dest in backward_reachable:
        edge_subset.append(edge)
    return CompleteStateDAG(initial_state=dag.initial_state, edges=edge_subset, final_state=dag.final_state)
  return impl


def prune_to_reachable_jit(dag: CompleteStateDAG) -> CompleteStateDAG:
  return g.prune_to_reachable(dag)


def partial_state_dag_starting_from(initial_state: State) -> PartialStateDAG:
  return PartialStateDAG(initial_state=initial_state, edges=[], seen_outgoing={})


def partial_state_dag_add_edge(dag: PartialStateDAG, edge: Edge):
  if edge.dest in dag.seen_outgoing:
    raise ValueError(f'edge into {edge.dest} after one to {dag.seen_outgoing[edge.dest]}')
  if g.EDGE_TRACEBACKS_ENABLED:
    frame = traceback.extract_stack(limit=2)[0]
    if isinstance(edge.info, dict):
      info = {**edge.info, 'traceback': frame}
    else:
      info = {'original_info': edge.info, 'traceback': frame}
    edge = Edge(source=edge.source, dest=edge.dest, cost=edge.cost, required_assignment=edge.required_assignment, info=info)
  dag.seen_outgoing[edge.source] = edge.dest
  dag.edges.append(edge)


def _partial_state_dag_add_edge_overload(dag: PartialStateDAG, edge: Edge):
  if g.CHECK_ORDERING_UNDER_JIT:
    def impl(dag: PartialStateDAG, edge: Edge):
      if edge.dest in dag.seen_outgoing:
        numba_raise.safe_raise(ValueError, ('Incoming edge', edge, 'to', edge.dest, 'added after an outgoing edge from', edge.dest, 'to',
                                            dag.seen_outgoing[edge.dest]))
      dag.seen_outgoing[edge.source] = edge.dest
      dag.edges.append(edge)
  else:
    def impl(dag: PartialStateDAG, edge: Edge):
      dag.edges.append(edge)
  return impl


def partial_state_dag_finish(dag: PartialStateDAG, final_state: State) -> CompleteStateDAG:
  return CompleteStateDAG(initial_state=dag.initial_state, edges=dag.edges, final_state=final_state)


def strip_traceback_from_edge(edge: Edge) -> Edge:
  if not isinstance(edge.info, dict):
    return edge
  if 'original_info' in edge.info:
    info = edge.info['original_info']
  elif 'traceback' in edge.info:
    info = dict(edge.info)
    del info['traceback']
  else:
    return edge
  return Edge(source=edge.source, dest=edge.dest, cost=edge.cost, required_assignment=edge.required_assignment, info=info)


def prune_unreachable_and_rewrite_states(dag: CompleteStateDAG, scratch_table: np.ndarray = None) -> CompleteStateDAG:
  state_lookup_table = scratch_table
  scratch_space_size = len(state_lookup_table)
  state_lookup_table[:] = -1
  states_by_index = numba.typed.List()
  fallback_lookup_table = numba.typed.Dict()

  def lookup_id_for_state(state):
    at = state_lookup_table[hash(state) % scratch_space_size]
    if at == -1:
      return -1
    if state == states_by_index[at]:
      return at
    if state in fallback_lookup_table:
      return fallback_lookup_table[state]
    return -1

  def lookup_or_create_id_for_state(state):
    slot = hash(state) % scratch_space_size
    at = state_lookup_table[slot]
    if at != -1:
      other = states_by_index[at]
      if state == other:
        return at
      if state in fallback_lookup_table:
        return fallback_lookup_table[state]
      fallback_lookup_table[other] = at
    new = len(states_by_index)
    states_by_index.append(state)
    state_lookup_table[slot] = new
    return new

  lookup_or_create_id_for_state(dag.initial_state)
  rewritten_edge_triples = numba.typed.List()
  for original_edge_index, edge in enumerate(dag.edges):
    if edge.cost >= np.inf:
      continue
    source_id = lookup_id_for_state(edge.source)
    if source_id == -1:
      continue
    dest_id = lookup_or_create_id_for_state(edge.dest)
    rewritten_edge_triples.append((source_id, dest_id, original_edge_index))

  final_state_id = lookup_or_create_id_for_state(dag.final_state)
  reachable_from_end = np.zeros((len(states_by_index),), dtype=np.bool_)
  reachable_from_end[final_state_id] = True
  for i in range(len(rewritten_edge_triples) - 1, -1, -1):
    (source_id, dest_id, original_edge_index) = rewritten_edge_triples[i]
    if reachable_from_end[dest_id]:
      reachable_from_end[source_id] = True

  if not reachable_from_end[lookup_id_for_state(dag.initial_state)]:
    raise ValueError('no path')

  compact_rewrite_map = np.cumsum(reachable_from_end) - 1
  final_edges = numba.typed.List()
  for source_id, dest_id, original_edge_index in rewritten_edge_triples:
    if reachable_from_end[dest_id]:
      edge = dag.edges[original_edge_index]
      final_edges.append(Edge(
          source=compact_rewrite_map[source_id], dest=compact_rewrite_map[dest_id], cost=edge.cost,
          required_assignment=edge.required_assignment, info=edge.info))
  return CompleteStateDAG(
      initial_state=compact_rewrite_map[lookup_id_for_state(dag.initial_state)], edges=final_edges,
      final_state=compact_rewrite_map[lookup_id_for_state(dag.final_state)])

"""Packed graphs and their shortest paths."""
from typing import Any, Optional
import numba
import numpy as np
from r_u_sure.decision_diagrams import packed_dags as pd
from r_u_sure.decision_diagrams.gated_state_dag import CompleteStateDAG, Edge, SharedVariableAssignment
from r_u_sure.decision_diagrams.packed_dags import (
    MinimalCostComputationStrategy as Strategy, PackedStateDAG, PackedStateDAGConversionData,
    PenalizedShortestPrefixSuffixTables as Tables, VariableTaggedState as Tagged)
from r_u_sure.numba_helpers import numba_raise
from r_u_sure.numba_helpers import numba_type_util


def edge_group_boundary_before_assigning(packed_dag: PackedStateDAG, variable_index: int) -> int:
  return packed_dag.edge_group_boundary_indices[2 * variable_index + 1]


def edge_group_boundary_after_assigning(packed_dag: PackedStateDAG, variable_index: int) -> int:
  return packed_dag.edge_group_boundary_indices[2 * variable_index + 2]


def state_tag_start_boundary(packed_dag: PackedStateDAG, variable_index: int) -> int:
  return packed_dag.state_variable_boundary_indices[variable_index + 1]


def state_tag_end_boundary(packed_dag: PackedStateDAG, variable_index: int) -> int:
  return packed_dag.state_variable_boundary_indices[variable_index + 2]


def make_specialized_fn__convert_dag_to_packed(example_state, example_variable_key, example_variable_value, example_info, with_numba: bool = True):
  assignment = numba_type_util.PretendOptional(SharedVariableAssignment(key=example_variable_key, value=example_variable_value))
  optional_variable_assignment_type = numba.typeof(assignment)
  example_edge = Edge(source=example_state, dest=example_state, cost=np.inf, required_assignment=assignment, info=example_info)
  edge_type = numba.typeof(example_edge)
  tagged_state = Tagged(original_state=example_state, last_variable_index=0)
  tagged_edge_type = numba.typeof(Edge(source=tagged_state, dest=tagged_state, cost=np.inf, required_assignment=assignment, info=0))
  int_edge_tuple_type = numba.typeof((1, example_edge))
  list_of_tagged_edge_type = numba.typeof(numba.typed.List.empty_list(item_type=tagged_edge_type))
  if with_numba:
    new_dict = numba.typed.Dict
    new_list = numba.typed.List

    def new_list_of(item_type):
      return numba.typed.List.empty_list(item_type)
  else:
    new_dict = dict
    new_list = list

    def new_list_of(item_type):
      return []

  def convert_dag_to_packed(dag: CompleteStateDAG, missing_assignment_value, variable_value_ordering):
    variable_keys_seen = new_dict()
    variable_values_seen = new_dict()
    variable_values_seen[missing_assignment_value] = True
    edges_by_source = new_dict()
    states_in_source_order = new_list()
    for i, edge in enumerate(dag.edges):
      if edge.required_assignment is not None:
        variable_keys_seen[edge.required_assignment.key] = True
        variable_values_seen[edge.required_assignment.value] = True
      if edge.source not in edges_by_source:
        edges_by_source[edge.source] = new_list_of(int_edge_tuple_type)
        states_in_source_order.append(edge.source)
      edges_by_source[edge.source].append((i, edge))
    assert states_in_source_order[0] == dag.initial_state
    assert dag.final_state not in edges_by_source
    states_in_source_order.append(dag.final_state)
    edges_by_source[dag.final_state] = new_list_of(int_edge_tuple_type)

    ordered_variable_keys = new_list(variable_keys_seen.keys())
    ordered_variable_keys.sort()
    index_of_variable_key = new_dict()
    for i, variable in enumerate(ordered_variable_keys):
      index_of_variable_key[variable] = i
    if variable_value_ordering is None:
      ordered_variable_values = new_list(variable_values_seen.keys())
      ordered_variable_values.sort()
    else:
      ordered_variable_values = new_list(variable_value_ordering)
    index_of_variable_value = new_dict()
    for i, value in enumerate(ordered_variable_values):
      index_of_variable_value[value] = i

    largest_possible_before = new_dict()
    largest_possible_before[dag.initial_state] = -1
    for edge in dag.edges:
      if edge.required_assignment is not None:
        update = index_of_variable_key[edge.required_assignment.key]
      elif edge.source in largest_possible_before:
        update = largest_possible_before[edge.source]
      else:
        numba_raise.safe_raise(ValueError, ('Outgoing edge', edge, (
            'has an unreachable source. Please make sure every node is'
            ' reachable using `gated_state_dag.prune_to_reachable`'
            ' before calling this function.')))
      if edge.dest not in largest_possible_before:
        largest_possible_before[edge.dest] = update
      else:
        largest_possible_before[edge.dest] = max(largest_possible_before[edge.dest], update)

    largest_guaranteed_before = new_dict()
    largest_guaranteed_before[dag.initial_state] = -1
    for edge in dag.edges:
      if edge.required_assignment is not None:
        update = index_of_variable_key[edge.required_assignment.key]
      else:
        update = largest_possible_before[edge.source]
      if edge.dest not in largest_guaranteed_before:
        largest_guaranteed_before[edge.dest] = update
      else:
        largest_guaranteed_before[edge.dest] = min(largest_guaranteed_before[edge.dest], update)

    largest_immediately_after = new_dict()
    for edge in dag.edges:
      if edge.required_assignment is not None:
        update = index_of_variable_key[edge.required_assignment.key]
        if update <= largest_possible_before[edge.source]:
          conflict_var = ordered_variable_keys[largest_possible_before[edge.source]]
          numba_raise.safe_raise(ValueError, (
              'Variable ordering violation for edge ', edge, '; variable ', edge.required_assignment.key,
              ' assigned here precedes variable ', conflict_var, ' already assigned on a path to this edge.'))
        if edge.source not in largest_immediately_after:
          largest_immediately_after[edge.source] = update
        else:
          largest_immediately_after[edge.source] = max(largest_immediately_after[edge.source], update)

    edge_groups_before_var = new_list_of(list_of_tagged_edge_type)
    for _ in range(len(ordered_variable_keys) + 1):
      edge_groups_before_var.append(new_list_of(tagged_edge_type))
    edge_groups_assigning_var = new_list_of(list_of_tagged_edge_type)
    for _ in range(len(ordered_variable_keys)):
      edge_groups_assigning_var.append(new_list_of(tagged_edge_type))

    for state in states_in_source_order:
      smallest_tag_for_state = largest_guaranteed_before[state]
      default_outgoing_tag_for_state = largest_possible_before[state]
      if state in largest_immediately_after:
        largest_tag_for_state = largest_immediately_after[state] - 1
      else:
        largest_tag_for_state = default_outgoing_tag_for_state
      for tag in range(smallest_tag_for_state, largest_tag_for_state):
        edge_groups_assigning_var[tag + 1].append(Edge(
            source=Tagged(original_state=state, last_variable_index=tag),
            dest=Tagged(original_state=state, last_variable_index=tag + 1), cost=0,
            required_assignment=numba_type_util.as_numba_type(
                SharedVariableAssignment(key=ordered_variable_keys[tag + 1], value=missing_assignment_value),
                optional_variable_assignment_type),
            info=-1))
      for edge_original_index, edge in edges_by_source[state]:
        assert edge.source == state
        if edge.dest not in edges_by_source:
          continue
        if edge.cost == np.inf:
          continue
        if edge.required_assignment is None:
          edge_groups_before_var[default_outgoing_tag_for_state + 1].append(Edge(
              source=Tagged(original_state=state, last_variable_index=default_outgoing_tag_for_state),
              dest=Tagged(original_state=edge.dest, last_variable_index=default_outgoing_tag_for_state),
              cost=edge.cost, required_assignment=numba_type_util.as_numba_type(None, optional_variable_assignment_type),
              info=edge_original_index))
        else:
          var_index = index_of_variable_key[edge.required_assignment.key]
          edge_groups_assigning_var[var_index].append(Edge(
              source=Tagged(original_state=state, last_variable_index=var_index - 1),
              dest=Tagged(original_state=edge.dest, last_variable_index=var_index),
              cost=edge.cost, required_assignment=numba_type_util.as_numba_type(
                  SharedVariableAssignment(key=edge.required_assignment.key, value=edge.required_assignment.value),
                  optional_variable_assignment_type),
              info=edge_original_index))

    edge_groups = new_list()
    for i in range(len(ordered_variable_keys)):
      edge_groups.append(edge_groups_before_var[i])
      edge_groups.append(edge_groups_assigning_var[i])
    edge_groups.append(edge_groups_before_var[len(ordered_variable_keys)])

    table_index_for_tagged_state = new_dict()
    tagged_states_in_table_order = new_list()
    total_edge_count = 0
    tagged_edges_in_table_order = new_list()
    for group in edge_groups:
      for edge in group:
        tagged_edges_in_table_order.append(edge)
        if edge.source not in table_index_for_tagged_state:
          table_index_for_tagged_state[edge.source] = len(tagged_states_in_table_order)
          tagged_states_in_table_order.append(edge.source)
        total_edge_count += 1
    assert tagged_states_in_table_order[0] == Tagged(original_state=dag.initial_state, last_variable_index=-1)
    final_tagged_state = Tagged(original_state=dag.final_state, last_variable_index=len(ordered_variable_keys) - 1)
    assert final_tagged_state not in table_index_for_tagged_state
    table_index_for_tagged_state[final_tagged_state] = len(tagged_states_in_table_order)
    tagged_states_in_table_order.append(final_tagged_state)

    state_variable_boundary_indices = np.empty(len(ordered_variable_keys) + 2, np.int64)
    last_tag = -1
    state_variable_boundary_indices[0] = 0
    for i, state in enumerate(tagged_states_in_table_order):
      for finished_tag in range(last_tag, state.last_variable_index):
        state_variable_boundary_indices[finished_tag + 2] = i
      last_tag = state.last_variable_index
    for finished_tag in range(last_tag, len(ordered_variable_keys)):
      state_variable_boundary_indices[finished_tag + 2] = len(tagged_states_in_table_order)

    edge_group_boundary_indices = np.empty(len(edge_groups) + 1, np.int64)
    packed_edge_matrix = np.empty((total_edge_count,), pd.NUMPY_EDGE_STRUCT_DTYPE)
    current_edge_index = 0
    for group_index, group in enumerate(edge_groups):
      edge_group_boundary_indices[group_index] = current_edge_index
      for edge in group:
        if edge.required_assignment is not None:
          assignment_key_index = index_of_variable_key[edge.required_assignment.key]
          assignment_value_index = index_of_variable_value[edge.required_assignment.value]
        else:
          assignment_key_index = -1
          assignment_value_index = -1
        packed_edge_matrix[current_edge_index]['source_index'] = table_index_for_tagged_state[edge.source]
        packed_edge_matrix[current_edge_index]['dest_index'] = table_index_for_tagged_state[edge.dest]
        packed_edge_matrix[current_edge_index]['cost'] = edge.cost
        packed_edge_matrix[current_edge_index]['required_assignment_key_index'] = assignment_key_index
        packed_edge_matrix[current_edge_index]['required_assignment_value_index'] = assignment_value_index
        current_edge_index += 1
    edge_group_boundary_indices[len(edge_groups)] = current_edge_index

    outgoing_edge_indices_for_tagged_state_index = new_list()
    for _ in range(len(tagged_states_in_table_order)):
      outgoing_edge_indices_for_tagged_state_index.append(new_list_of(numba.int64))
    for edge_index, edge in enumerate(tagged_edges_in_table_order):
      outgoing_edge_indices_for_tagged_state_index[table_index_for_tagged_state[edge.source]].append(edge_index)
    return (
        PackedStateDAG(
            num_tagged_states=len(tagged_states_in_table_order), num_variable_keys=len(ordered_variable_keys),
            num_variable_values=len(ordered_variable_values), packed_edge_matrix=packed_edge_matrix,
            edge_group_boundary_indices=edge_group_boundary_indices,
            state_variable_boundary_indices=state_variable_boundary_indices),
        PackedStateDAGConversionData(
            variable_keys=ordered_variable_keys, variable_values=ordered_variable_values, original_states=states_in_source_order,
            original_edges=dag.edges, tagged_states=tagged_states_in_table_order, tagged_edges=tagged_edges_in_table_order,
            outgoing_edge_indices_for_tagged_state_index=outgoing_edge_indices_for_tagged_state_index,
            variable_key_index_from_key=index_of_variable_key, variable_value_index_from_value=index_of_variable_value))

  def prepare_input_dag(dag):
    result = CompleteStateDAG(
        initial_state=dag.initial_state, edges=numba.typed.List.empty_list(item_type=edge_type), final_state=dag.final_state)
    for edge in dag.edges:
      result.edges.append(edge)
    return result


def scale_packed_dag_costs(dag: PackedStateDAG, scale: float) -> PackedStateDAG:
  matrix = np.copy(dag.packed_edge_matrix)
  matrix['cost'] *= scale
  return PackedStateDAG(
      num_tagged_states=dag.num_tagged_states, num_variable_keys=dag.num_variable_keys, num_variable_values=dag.num_variable_values,
      packed_edge_matrix=matrix, edge_group_boundary_indices=dag.edge_group_boundary_indices,
      state_variable_boundary_indices=dag.state_variable_boundary_indices)


def empty_table(dag: PackedStateDAG, penalties) -> Tables:
  return Tables(
      dag=dag, penalties=np.copy(penalties), prefix_table=np.full((dag.num_tagged_states,), np.nan),
      suffix_table=np.full((dag.num_tagged_states,), np.nan), prefixes_valid_ending_at_tag=np.array(-2),
      suffixes_valid_starting_from_tag=np.array(dag.num_variable_keys))


def empty_unpenalized_table(dag: PackedStateDAG) -> Tables:
  return pd.empty_table(dag, np.zeros((dag.num_variable_keys, dag.num_variable_values), dtype=np.float64))


def copy_memo(memo: Tables) -> Tables:
  return Tables(
      dag=memo.dag, penalties=np.copy(memo.penalties), prefix_table=np.copy(memo.prefix_table),
      suffix_table=np.copy(memo.suffix_table), prefixes_valid_ending_at_tag=np.copy(memo.prefixes_valid_ending_at_tag),
      suffixes_valid_starting_from_tag=np.copy(memo.suffixes_valid_starting_from_tag))


def masked_prefixes(memo: Tables):
  result = np.copy(memo.prefix_table)
  result[pd.state_tag_end_boundary(memo.dag, memo.prefixes_valid_ending_at_tag):] = np.nan
  return result


def masked_suffixes(memo: Tables):
  result = np.copy(memo.suffix_table)
  result[:pd.state_tag_start_boundary(memo.dag, memo.suffixes_valid_starting_from_tag)] = np.nan
  return result


def update_prefixes_up_to(memo: Tables, desired_tag: int) -> None:
  assert -1 <= desired_tag < memo.dag.num_variable_keys
  valid = memo.prefixes_valid_ending_at_tag
  if desired_tag <= valid:
    return
  memo.prefix_table[pd.state_tag_start_boundary(memo.dag, valid + 1):pd.state_tag_end_boundary(memo.dag, desired_tag)] = np.inf
  if valid == -2:
    first = 0
    memo.prefix_table[0] = 0
  else:
    first = pd.edge_group_boundary_before_assigning(memo.dag, valid + 1)
  if desired_tag == memo.dag.num_variable_keys:
    stop = memo.dag.edge_group_boundary_indices[-1]
  else:
    stop = pd.edge_group_boundary_before_assigning(memo.dag, desired_tag + 1)
  for edge_index in range(first, stop):
    assert edge_index >= 0
    edge = memo.dag.packed_edge_matrix[edge_index]
    if edge['required_assignment_key_index'] == -1:
      penalty = 0.0
    else:
      penalty = memo.penalties[edge['required_assignment_key_index'], edge['required_assignment_value_index']]
    dest = edge['dest_index']
    memo.prefix_table[dest] = min(memo.prefix_table[dest], memo.prefix_table[edge['source_index']] + edge['cost'] + penalty)
  memo.prefixes_valid_ending_at_tag[()] = desired_tag


def update_suffixes_up_to(memo: Tables, desired_tag: int) -> None:
  assert -1 <= desired_tag < memo.dag.num_variable_keys
  valid = memo.suffixes_valid_starting_from_tag
  if desired_tag >= valid:
    return
  memo.suffix_table[pd.state_tag_start_boundary(memo.dag, desired_tag):pd.state_tag_end_boundary(memo.dag, valid - 1)] = np.inf
  if valid == memo.dag.num_variable_keys:
    last = memo.dag.edge_group_boundary_indices[-1] - 1
    memo.suffix_table[-1] = 0
  else:
    last = pd.edge_group_boundary_after_assigning(memo.dag, valid) - 1
  if desired_tag == -1:
    stop = -1
  else:
    stop = pd.edge_group_boundary_after_assigning(memo.dag, desired_tag) - 1
  for edge_index in range(last, stop, -1):
    assert edge_index >= 0
    edge = memo.dag.packed_edge_matrix[edge_index]
    if edge['required_assignment_key_index'] == -1:
      penalty = 0.0
    else:
      penalty = memo.penalties[edge['required_assignment_key_index'], edge['required_assignment_value_index']]
    source = edge['source_index']
    memo.suffix_table[source] = min(memo.suffix_table[source], memo.suffix_table[edge['dest_index']] + edge['cost'] + penalty)
  memo.suffixes_valid_starting_from_tag[()] = desired_tag


def set_penalties(memo: Tables, variable_index: int, penalties) -> None:
  memo.penalties[variable_index, :] = penalties
  memo.prefixes_valid_ending_at_tag[()] = min(memo.prefixes_valid_ending_at_tag[()], variable_index - 1)
  memo.suffixes_valid_starting_from_tag[()] = max(memo.suffixes_valid_starting_from_tag[()], variable_index)


def make_fully_valid(memo: Tables) -> None:
  pd.update_prefixes_up_to(memo, memo.dag.num_variable_keys - 1)
  pd.update_suffixes_up_to(memo, -1)


def compute_min_marginals_for_variable(memo: Tables, variable_index: int):
  assert 0 <= variable_index < memo.dag.num_variable_keys
  pd.update_prefixes_up_to(memo, variable_index - 1)
  pd.update_suffixes_up_to(memo, variable_index)
  min_marginals = np.full((memo.dag.num_variable_values,), np.inf)
  for edge_index in range(pd.edge_group_boundary_before_assigning(memo.dag, variable_index),
                          pd.edge_group_boundary_after_assigning(memo.dag, variable_index)):
    edge = memo.dag.packed_edge_matrix[edge_index]
    assert edge['required_assignment_key_index'] == variable_index
    value = edge['required_assignment_value_index']
    min_marginals[value] = min(
        min_marginals[value],
        memo.prefix_table[edge['source_index']] + edge['cost'] + memo.penalties[variable_index, value]
        + memo.suffix_table[edge['dest_index']])
  return min_marginals


def compute_all_min_marginals(memo: Tables):
  all_min_marginals = np.full((memo.dag.num_variable_keys, memo.dag.num_variable_values), np.nan)
  pd.make_fully_valid(memo)
  for variable_index in range(memo.dag.num_variable_keys):
    all_min_marginals[variable_index, :] = pd.compute_min_marginals_for_variable(memo, variable_index)
  return all_min_marginals


def compute_minimal_cost(memo: Tables, strategy: Strategy = Strategy.FROM_MIDDLE):
  if strategy == Strategy.AT_START:
    pd.update_suffixes_up_to(memo, -1)
    return memo.suffix_table[0]
  if strategy == Strategy.AT_END:
    pd.update_prefixes_up_to(memo, memo.dag.num_variable_keys - 1)
    return memo.prefix_table[-1]
  if strategy == Strategy.FROM_MIDDLE:
    variable = min(max(0, memo.suffixes_valid_starting_from_tag[()]), memo.dag.num_variable_keys - 1)
    return np.min(pd.compute_min_marginals_for_variable(memo, variable_index=variable))
  raise ValueError('unknown strategy')


def extract_minimal_cost_path_and_assignments(memo: Tables, conversion_data: PackedStateDAGConversionData, tagged: bool = False):
  pd.update_suffixes_up_to(memo, -1)
  state_index = 0
  path = []
  assignments = {}
  while state_index < memo.dag.num_tagged_states - 1:
    outgoing = conversion_data.outgoing_edge_indices_for_tagged_state_index[state_index]
    assert outgoing
    best_index = outgoing[0]
    best_cost_to_go = np.inf
    best_next_state = memo.dag.num_tagged_states
    for outgoing_edge_index in outgoing:
      edge = memo.dag.packed_edge_matrix[outgoing_edge_index]
      if edge['required_assignment_key_index'] == -1:
        penalty = 0.0
      else:
        penalty = memo.penalties[edge['required_assignment_key_index'], edge['required_assignment_value_index']]
      cost_to_go = memo.suffix_table[edge['dest_index']] + edge['cost'] + penalty
      if cost_to_go < best_cost_to_go:
        best_cost_to_go = cost_to_go
        best_index = outgoing_edge_index
        best_next_state = edge['dest_index']
    state_index = best_next_state
    tagged_edge = conversion_data.tagged_edges[best_index]
    if tagged_edge.required_assignment is not None:
      assignments[tagged_edge.required_assignment.key] = tagged_edge.required_assignment.value
    if tagged:
      path.append(tagged_edge)
    elif tagged_edge.info != -1:
      path.append(conversion_data.original_edges[tagged_edge.info])
  return path, assignments


def constrained_best_path(dag: PackedStateDAG, conversion_data: PackedStateDAGConversionData, constraints: dict[Any, Any]):
  memo = pd.empty_unpenalized_table(dag)
  for key, value in constraints.items():
    penalties = np.full((dag.num_variable_values,), np.inf)
    penalties[conversion_data.variable_value_index_from_value[value]] = 0
    pd.set_penalties(memo, conversion_data.variable_key_index_from_key[key], penalties)
  return pd.extract_minimal_cost_path_and_assignments(memo, conversion_data, tagged=False)

"""Compiled packers: the same conversion as pack_dag, for one type of graph."""
import numba
from r_u_sure.decision_diagrams import gated_state_dag
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import constraint_dags
from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.edit_distance_utility import part_selection_dags
from r_u_sure.edit_distance_utility.region_decisions import DecisionValue


def edits(states_rewritten_as_integers: bool = False):
  pack, convert = packed_dags.make_specialized_fn__convert_dag_to_packed(
      example_state=42 if states_rewritten_as_integers else edit_dags.EXAMPLE_STATE, example_variable_key=edit_dags.EXAMPLE_VARIABLE_KEY,
      example_variable_value=DecisionValue.NOT_APPLICABLE, example_info=edit_dags.EXAMPLE_EDGE_INFO)
  order = tuple(DecisionValue)

  @numba.njit
  def packer(dag: gated_state_dag.CompleteStateDAG):
    return pack(dag=dag, missing_assignment_value=DecisionValue.NOT_APPLICABLE, variable_value_ordering=numba.typed.List(order))

  return packer, convert


def constraint(states_rewritten_as_integers: bool = False):
  pack, convert = packed_dags.make_specialized_fn__convert_dag_to_packed(
      example_state=42 if states_rewritten_as_integers else constraint_dags.EXAMPLE_STATE,
      example_variable_key=constraint_dags.EXAMPLE_VARIABLE_KEY,
      example_variable_value=DecisionValue.NOT_APPLICABLE, example_info=constraint_dags.EXAMPLE_EDGE_INFO)
  order = tuple(DecisionValue)

  @numba.njit
  def packer(dag: gated_state_dag.CompleteStateDAG):
    return pack(dag=dag, missing_assignment_value=DecisionValue.NOT_APPLICABLE, variable_value_ordering=numba.typed.List(order))

  return packer, convert


def selection(states_rewritten_as_integers: bool = False):
  pack, convert = packed_dags.make_specialized_fn__convert_dag_to_packed(
      example_state=42 if states_rewritten_as_integers else part_selection_dags.EXAMPLE_STATE,
      example_variable_key=part_selection_dags.EXAMPLE_VARIABLE_KEY,
      example_variable_value=DecisionValue.NOT_APPLICABLE, example_info=part_selection_dags.EXAMPLE_EDGE_INFO)
  order = tuple(DecisionValue)

  @numba.njit
  def packer(dag: gated_state_dag.CompleteStateDAG):
    return pack(dag=dag, missing_assignment_value=DecisionValue.NOT_APPLICABLE, variable_value_ordering=numba.typed.List(order))

  return packer, convert

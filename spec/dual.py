"""Contracts of the dual decomposition solver: system bookkeeping, block updates, sweeps, extraction."""
import time
from typing import Optional
import numba
import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as ds
from r_u_sure.decision_diagrams import packed_dags as pd
from r_u_sure.decision_diagrams.consistent_path_dual_solver import DualDecompositionDiagramSystem as System
from r_u_sure.decision_diagrams.consistent_path_dual_solver import DualDecompositionDiagramSystemComputationData as Data
from r_u_sure.decision_diagrams.consistent_path_dual_solver import MinMarginalSweepSolverResults
from r_u_sure.decision_diagrams.consistent_path_dual_solver import PartialCommitmentStatus
from r_u_sure.decision_diagrams.consistent_path_dual_solver import SweepDirection
from r_u_sure.decision_diagrams.packed_dags import PackedStateDAG, PackedStateDAGConversionData


def _numba_extract_keys(current_variable_keys, accum_variable_key_map, accum_variable_keys):
  for key in current_variable_keys:
    if key not in accum_variable_key_map:
      accum_variable_keys.append(key)
      accum_variable_key_map[key] = True


def _numba_populate_variable_index_map(variable_keys, dag_variable_index_map, dag_index, variable_key_index_from_key):
  for i, variable in enumerate(variable_keys):
    dag_variable_index_map[i, dag_index] = variable_key_index_from_key.get(variable, -1)


def make_system(converted_dags: list[tuple[PackedStateDAG, PackedStateDAGConversionData]],
                dag_update_proportions: Optional[np.typing.NDArray[np.float64]] = None):
  if not converted_dags:
    raise ValueError('at least one graph is needed')
  if dag_update_proportions is None:
    dag_update_proportions = np.ones((len(converted_dags),), np.float64)
  variable_values = converted_dags[0][1].variable_values
  for _, conversion_data in converted_dags[1:]:
    if conversion_data.variable_values != variable_values:
      raise ValueError('all graphs must have the same values')
  if isinstance(converted_dags[0][1].variable_keys, numba.typed.List):
    key_type = converted_dags[0][1].variable_keys._numba_type_.item_type
    seen = numba.typed.Dict.empty(key_type, numba.typeof(True))
    variable_keys = numba.typed.List.empty_list(key_type)
    for _, conversion_data in converted_dags:
      ds._numba_extract_keys(conversion_data.variable_keys, seen, variable_keys)
    variable_keys.sort()
    index_map = np.empty((len(variable_keys), len(converted_dags)), np.int64)
    for d, (_, conversion_data) in enumerate(converted_dags):
      ds._numba_populate_variable_index_map(variable_keys, index_map, d, conversion_data.variable_key_index_from_key)
  else:
    seen = set()
    variable_keys = []
    for _, conversion_data in converted_dags:
      for key in conversion_data.variable_keys:
        if key not in seen:
          seen.add(key)
          variable_keys.append(key)
    variable_keys.sort()
    index_map = np.empty((len(variable_keys), len(converted_dags)), np.int64)
    for i, variable in enumerate(variable_keys):
      for d, (_, conversion_data) in enumerate(converted_dags):
        if variable in conversion_data.variable_key_index_from_key:
          index_map[i, d] = conversion_data.variable_key_index_from_key[variable]
        else:
          index_map[i, d] = -1
  return System(
      variable_keys=variable_keys,
      variable_values=variable_values,
      conversion_data=[conversion_data for _, conversion_data in converted_dags],
      data=Data(
          dag_tables=numba.typed.List([pd.empty_unpenalized_table(dag) for dag, _ in converted_dags]),
          dag_variable_index_map=index_map,
          dag_update_proportions=dag_update_proportions,
          extra_unary_costs=np.zeros((len(variable_keys), len(variable_values)), np.float64),
          num_variable_keys=len(variable_keys),
          num_variable_values=len(variable_values)))


def clone_system(system: System):
  return System(variable_keys=system.variable_keys, variable_values=system.variable_values,
                conversion_data=system.conversion_data, data=ds.clone_system_data(system.data))


def clone_system_data(system_data: Data):
  return Data(
      dag_tables=ds._clone_memos(system_data.dag_tables),
      dag_variable_index_map=system_data.dag_variable_index_map,
      dag_update_proportions=system_data.dag_update_proportions,
      extra_unary_costs=np.copy(system_data.extra_unary_costs),
      num_variable_keys=system_data.num_variable_keys,
      num_variable_values=system_data.num_variable_values)


def _clone_memos(memos):
  result = numba.typed.List()
  for memo in memos:
    result.append(pd.copy_memo(memo))
  return result


def system_min_marginals(system_data: Data, variable_index: int):
  total_min_marginals = np.zeros((system_data.num_variable_values,), np.float64)
  for subproblem, sub_variable in enumerate(system_data.dag_variable_index_map[variable_index, :]):
    if sub_variable == -1:
      total_min_marginals += pd.compute_minimal_cost(system_data.dag_tables[subproblem])
    else:
      total_min_marginals += pd.compute_min_marginals_for_variable(system_data.dag_tables[subproblem], sub_variable)
  return total_min_marginals


def min_marginal_average(system_data: Data, variable_index: int):
  cost_for_non_participating_subproblems = 0.0
  total_min_marginals = np.zeros((system_data.num_variable_values,), np.float64)
  total_weight = 0.0
  subprob_info = []
  for subproblem, sub_variable in enumerate(system_data.dag_variable_index_map[variable_index, :]):
    if sub_variable == -1:
      cost_for_non_participating_subproblems += pd.compute_minimal_cost(system_data.dag_tables[subproblem])
      continue
    pd.set_penalties(system_data.dag_tables[subproblem], sub_variable, np.zeros_like(total_min_marginals))
    min_marginals = pd.compute_min_marginals_for_variable(system_data.dag_tables[subproblem], sub_variable)
    total_min_marginals += min_marginals
    weight = system_data.dag_update_proportions[subproblem]
    total_weight += weight
    subprob_info.append((subproblem, sub_variable, min_marginals, weight))
  total_min_marginals += system_data.extra_unary_costs[variable_index, :]
  for subproblem, sub_variable, min_marginals, weight in subprob_info:
    desired = total_min_marginals * (weight / total_weight)
    pd.set_penalties(system_data.dag_tables[subproblem], sub_variable,
                     desired - np.where(np.isinf(desired), 0, min_marginals))
  return np.min(total_min_marginals) + cost_for_non_participating_subproblems


def solve_system_with_sweeps(system_data: Data, soft_timeout: float = np.inf, tolerance: float = 1e-5):
  objective_at_step = numba.typed.List()
  variable_at_step = numba.typed.List()
  objective_at_sweep = numba.typed.List()
  steps_at_sweep = numba.typed.List()
  times_at_sweep = numba.typed.List()
  base_time = time.perf_counter()
  step_count = 0
  last_dual_bound = -np.inf
  reached_plateau = False
  timed_out = False
  while True:
    saw_any_change = False
    for direction in (SweepDirection.FORWARD, SweepDirection.REVERSE):
      if direction == SweepDirection.FORWARD:
        sweep = range(0, system_data.num_variable_keys - 1)
      else:
        sweep = range(system_data.num_variable_keys - 1, 0, -1)
      for variable in sweep:
        bound = ds.min_marginal_average(system_data, variable)
        if (bound - last_dual_bound) > tolerance:
          saw_any_change = True
        last_dual_bound = bound
        objective_at_step.append(bound)
        variable_at_step.append(variable)
        step_count += 1
      stamp = time.perf_counter()
      objective_at_sweep.append(last_dual_bound)
      steps_at_sweep.append(step_count)
      times_at_sweep.append(stamp - base_time)
      if stamp - base_time > soft_timeout:
        timed_out = True
        break
    if not saw_any_change:
      reached_plateau = True
      break
    if timed_out:
      break
  return MinMarginalSweepSolverResults(
      objective_at_step=np.asarray(objective_at_step),
      variable_at_step=np.asarray(variable_at_step),
      objective_at_sweep=np.asarray(objective_at_sweep),
      steps_at_sweep=np.asarray(steps_at_sweep),
      time_at_sweep=np.asarray(times_at_sweep),
      reached_plateau=reached_plateau)


def greedy_extract(system_data: Data, direction: SweepDirection):
  system_data = ds.clone_system_data(system_data)
  assignments = np.full((system_data.num_variable_keys,), -1, dtype=np.int64)
  if direction == SweepDirection.FORWARD:
    order = range(0, system_data.num_variable_keys)
  else:
    order = range(system_data.num_variable_keys - 1, -1, -1)
  last_cost = np.nan
  for variable in order:
    min_marginals = ds.system_min_marginals(system_data, variable)
    choice = np.argmin(min_marginals)
    assignments[variable] = choice
    last_cost = min_marginals[choice]
    unary = np.full((system_data.num_variable_values,), np.inf)
    unary[choice] = system_data.extra_unary_costs[variable, choice]
    system_data.extra_unary_costs[variable] = unary
    for subproblem, sub_variable in enumerate(system_data.dag_variable_index_map[variable, :]):
      if sub_variable == -1:
        continue
      penalties = np.full((system_data.num_variable_values,), np.inf)
      penalties[choice] = system_data.dag_tables[subproblem].penalties[sub_variable, choice]
      pd.set_penalties(system_data.dag_tables[subproblem], sub_variable, penalties)
  return assignments, last_cost


def partially_commit(system_data: Data, direction: SweepDirection, target_commitments_per_variable: float,
                     gap_strictness: float, epsilon: float = 1e-6, verbose: bool = False):
  if direction == SweepDirection.FORWARD:
    order = range(0, system_data.num_variable_keys)
  else:
    order = range(system_data.num_variable_keys - 1, -1, -1)
  aggregated_min_marginals = np.full((system_data.num_variable_keys, system_data.num_variable_values), np.nan)
  for variable in order:
    aggregated_min_marginals[variable, :] = ds.system_min_marginals(system_data, variable)
  best_cost_bound = np.max(np.min(aggregated_min_marginals, axis=1))
  finite = np.where(np.isinf(aggregated_min_marginals), -np.inf, aggregated_min_marginals)
  threshold = np.quantile(finite, 1 - target_commitments_per_variable / system_data.num_variable_values)
  if threshold <= best_cost_bound + epsilon:
    return PartialCommitmentStatus.NEEDS_GREEDY_EXTRACT
  gap = max(0, threshold - best_cost_bound) * gap_strictness
  count_new_forbidden = 0
  for variable in order:
    min_marginals = ds.system_min_marginals(system_data, variable)
    here = np.min(min_marginals)
    if here > best_cost_bound:
      best_cost_bound = here
    forbidden = min_marginals > best_cost_bound + gap
    count_new_forbidden += np.sum(forbidden & np.isfinite(min_marginals))
    system_data.extra_unary_costs[variable] = np.where(forbidden, np.inf, system_data.extra_unary_costs[variable, :])
    for subproblem, sub_variable in enumerate(system_data.dag_variable_index_map[variable, :]):
      if sub_variable == -1:
        continue
      pd.set_penalties(system_data.dag_tables[subproblem], sub_variable,
                       np.where(forbidden, np.inf, system_data.dag_tables[subproblem].penalties[sub_variable, :]))
  if count_new_forbidden:
    return PartialCommitmentStatus.MADE_PARTIAL_ASSIGNMENT
  return PartialCommitmentStatus.STUCK


def assignments_from_assignment_vector(system: System, assignment_vector: list[int]):
  return {system.variable_keys[k]: system.variable_values[v] for k, v in enumerate(assignment_vector)}


def constrain_system(system: System, constraints: dict, penalty: float = np.inf):
  key_index = {k: i for i, k in enumerate(system.variable_keys)}
  value_index = {v: i for i, v in enumerate(system.variable_values)}
  for key, value in constraints.items():
    variable = key_index[key]
    vector = np.full((system.data.num_variable_values,), np.float64(penalty))
    vector[value_index[value]] = 0.0
    system.data.extra_unary_costs[variable, :] += vector
    num_relevant = 0
    for subproblem, sub_variable in enumerate(system.data.dag_variable_index_map[variable, :]):
      if sub_variable != -1:
        num_relevant += 1
    for subproblem, sub_variable in enumerate(system.data.dag_variable_index_map[variable, :]):
      if sub_variable == -1:
        continue
      pd.set_penalties(system.data.dag_tables[subproblem], sub_variable,
                       system.data.dag_tables[subproblem].penalties[sub_variable, :] + vector / num_relevant)


def break_symmetry_randomly(system: System, noise_scale: float = 1.0, random_seed: Optional[int] = None):
  if random_seed is None:
    rng = np.random.RandomState()
  else:
    rng = np.random.RandomState(seed=random_seed)
  for variable in range(system.data.num_variable_keys):
    vector = rng.uniform(low=0.0, high=noise_scale, size=(system.data.num_variable_values,))
    system.data.extra_unary_costs[variable, :] += vector
    num_relevant = 0
    for subproblem, sub_variable in enumerate(system.data.dag_variable_index_map[variable, :]):
      if sub_variable != -1:
        num_relevant += 1
    for subproblem, sub_variable in enumerate(system.data.dag_variable_index_map[variable, :]):
      if sub_variable == -1:
        continue
      pd.set_penalties(system.data.dag_tables[subproblem], sub_variable,
                       system.data.dag_tables[subproblem].penalties[sub_variable, :] + vector / num_relevant)

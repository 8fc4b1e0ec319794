"""Processing of suggestions into decision systems, and reading solutions back."""
import bisect
import functools
import html
from typing import Any, Optional, Sequence
import numba
import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.decision_diagrams import gated_state_dag
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import constraint_dags
from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.edit_distance_utility import region_decisions
from r_u_sure.edit_distance_utility.region_decisions import DecisionKey, DecisionValue
from r_u_sure.parsing import sequence_from_pseudo_parse
from r_u_sure.parsing.pseudo_parser import stack_parser
from r_u_sure.parsing.pseudo_parser import utilities as parse_utilities
from r_u_sure.tree_structure import packed_sequence_nodes
from r_u_sure.tree_structure import sequence_node_helpers
from r_u_sure.tree_structure import sequence_nodes
from r_u_sure.tree_structure import transforms
from r_u_sure.tree_structure.packed_sequence_nodes import PackedSequenceNodeStorage
from r_u_sure.wrappers import parser_tools
from r_u_sure.wrappers import wrapper_base
from r_u_sure.wrappers.edit_distance_wrapper_base import EditDistanceWrapperBase
from r_u_sure.wrappers.parser_tools import ParserHelper


def pack_sequence_from_pseudoparser(sequence: list[sequence_nodes.SequenceNode], with_numba: bool) -> PackedSequenceNodeStorage:
  if not with_numba:
    return packed_sequence_nodes.pack(sequence)
  return packed_sequence_nodes.pack(sequence, as_numba_typed=True, match_type_numba_type=numba.typeof('CONTENT_LEAF'))


def allow_regions_around_pseudoparse_node(node) -> bool:
  if node.match_type in ('MATCH_LEFT', 'MATCH_INNER', 'MATCH_RIGHT'):
    return False
  return not (isinstance(node, sequence_nodes.TextTokenNode) and node.text_contents == '\n')


def ParserHelper____init__(self: ParserHelper, language: str, flatten: bool = False):
  self._language = language
  self._flatten = flatten


def ParserHelper__parse_to_nodes(self: ParserHelper, code_or_text: str) -> list[sequence_nodes.SequenceNode]:
  if self._language == 'raw_simple_tokens':
    return sequence_from_pseudo_parse.subtokenize_token(code_or_text)
  indent = 1
  if self._language == 'python':
    indent = parse_utilities.infer_python_spaces_per_indent(code_or_text)
  tree, _, types, raw_strings, _ = stack_parser.PseudoParser.parse_and_maybe_preprocess(self._language, code_or_text, indent)
  result = [sequence_from_pseudo_parse.pseudo_parse_node_to_nested_sequence_node(
      tree, raw_strings, types,
      decoration_node_types={stack_parser.NodeType.WHITE_SPACE_LEAF, stack_parser.NodeType.NON_CONTENT_LEAF},
      subtokenize_node_types={stack_parser.NodeType.STRING_LITERAL})]
  return transforms.flatten_groups(result) if self._flatten else result


def EditDistanceWrapperBase____init__(
    self: EditDistanceWrapperBase, utility_config: edit_dags.TrustRegionUtilityParameters, use_numba: bool = True, rewrite_states: bool = True):
  self._utility_config = utility_config
  self._use_numba = use_numba
  if not use_numba:
    self._prune_to_reachable = gated_state_dag.prune_to_reachable
    self._pack_edit_dag = edit_dags.pack_dag
    self._edit_dag_converter = lambda dag: dag
    self._pack_constraint_dag = constraint_dags.pack_dag
    self._constraint_dag_converter = lambda dag: dag
  else:
    self._pack_edit_dag, self._edit_dag_converter = edit_dags.make_specialized_dag_packer(states_rewritten_as_integers=rewrite_states)
    self._pack_constraint_dag, self._constraint_dag_converter = constraint_dags.make_specialized_dag_packer(
        states_rewritten_as_integers=rewrite_states)
    if not rewrite_states:
      self._prune_to_reachable = gated_state_dag.prune_to_reachable_jit
    else:
      self._scratch_table = np.full((2**25,), -1, dtype=np.int32)
      self._prune_to_reachable = functools.partial(
          gated_state_dag.prune_unreachable_and_rewrite_states, scratch_table=self._scratch_table)
  self._construct_edit_dag = edit_dags.make_edit_dag_builder(with_numba=use_numba)
  self._construct_constraint_dag = constraint_dags.make_constraint_dag_builder(with_numba=use_numba)


def EditDistanceWrapperBase___process_prototype_and_context_maybe_exit(
    self: EditDistanceWrapperBase, context_and_prototype: list[sequence_nodes.SequenceNode], prediction_location: int,
    can_insert_low_confidence: bool, can_early_exit: bool):
  sequence = context_and_prototype
  if can_insert_low_confidence:
    sequence = transforms.insert_region_options_around_subsequences(
        sequence, allow_empty_regions=True, node_filter=parser_tools.allow_regions_around_pseudoparse_node)
  if can_early_exit:
    sequence = transforms.insert_early_exit(sequence)
  packed = parser_tools.pack_sequence_from_pseudoparser(
      transforms.truncate_prefix_at_offset(sequence, prediction_location), with_numba=self._use_numba)
  text = sequence_node_helpers.render_text_contents(context_and_prototype)
  return packed, {'context_prefix_contents': text[:prediction_location]}


def EditDistanceWrapperBase__process_target(
    self: EditDistanceWrapperBase, context_and_target: list[sequence_nodes.SequenceNode], prediction_location: int) -> PackedSequenceNodeStorage:
  return parser_tools.pack_sequence_from_pseudoparser(
      transforms.truncate_prefix_at_offset(context_and_target, prediction_location), with_numba=self._use_numba)


def EditDistanceWrapperBase__build_system(
    self: EditDistanceWrapperBase, prototype: PackedSequenceNodeStorage, context_info: Any, targets: list[PackedSequenceNodeStorage],
    target_utility_scale_factors: Optional[list[float]] = None):
  if target_utility_scale_factors is None:
    target_utility_scale_factors = [1.0 / len(targets) for _ in targets]
  dags_and_conversion_data = []
  dag_update_proportions = []
  for target, scale_factor in zip(targets, target_utility_scale_factors):
    dag, _ = self._construct_edit_dag(prototype=prototype, target=target, parameters=self._utility_config)
    packed_dag, conversion_data = self._pack_edit_dag(self._prune_to_reachable(dag))
    dags_and_conversion_data.append((packed_dags.scale_packed_dag_costs(packed_dag, scale_factor), conversion_data))
    dag_update_proportions.append(scale_factor)
  total = sum(target_utility_scale_factors)
  constraint_dag = self._construct_constraint_dag(prototype=prototype)
  packed_constraints, constraint_conversion = self._pack_constraint_dag(self._prune_to_reachable(constraint_dag))
  dags_and_conversion_data.append((packed_dags.scale_packed_dag_costs(packed_constraints, total), constraint_conversion))
  dag_update_proportions.append(total)
  return solver.make_system(dags_and_conversion_data, dag_update_proportions=np.array(dag_update_proportions))


def EditDistanceWrapperBase__solution_info(
    self: EditDistanceWrapperBase, prototype: PackedSequenceNodeStorage, evaluation_target: Optional[PackedSequenceNodeStorage],
    context_info: Any, system: Optional[solver.DualDecompositionDiagramSystem], assignments: dict[DecisionKey, DecisionValue],
    sample_system: Optional[solver.DualDecompositionDiagramSystem] = None) -> dict[Any, Any]:
  parts = []
  for region_info in region_decisions.extract_sequence_with_regions(prototype, assignments):
    parts.append((region_info.token_or_decoration, region_info.in_annotated_region))
  result = {'extracted_parts': parts}
  if system is not None and evaluation_target is not None:
    assert len(system.data.dag_tables) == 2
    path, _ = packed_dags.constrained_best_path(system.data.dag_tables[0].dag, system.conversion_data[0], assignments)
    result['total_cost'] = sum(edge.cost for edge in path)
    result.update(edit_dags.extract_edit_summary_metrics(path=path, prototype=prototype, target=evaluation_target))
  if sample_system is not None:
    result.update(wrapper_base.compute_sample_system_info(
        all_packed_dags=[table.dag for table in sample_system.data.dag_tables[:-1]],
        conversion_datas=sample_system.conversion_data[:-1], assignments=assignments, total_cost=result.get('total_cost')))
  return result


def EditDistanceWrapperBase__render_solution_html(
    self: EditDistanceWrapperBase, prototype: PackedSequenceNodeStorage, context_info: Any,
    assignments: dict[DecisionKey, DecisionValue]) -> str:
  return ('<span style="white-space: pre; font-family: monospace; color: #72A0C1;">'
          + html.escape(context_info['context_prefix_contents']) + '</span>'
          + region_decisions.render_regions_to_html(prototype, assignments) + '<br>')


def EditDistanceWrapperBase__render_pairwise_matching_html(
    self: EditDistanceWrapperBase, prototype: PackedSequenceNodeStorage, targets: list[PackedSequenceNodeStorage], context_info: Any,
    system: solver.DualDecompositionDiagramSystem, assignments: dict[DecisionKey, DecisionValue]) -> str:
  source = []
  common_prefix = context_info['context_prefix_contents']
  all_packed_dags = [table.dag for table in system.data.dag_tables[:-1]]
  for i, (packed_dag, conversion_data, target) in enumerate(zip(all_packed_dags, system.conversion_data, targets)):
    path, _ = packed_dags.constrained_best_path(packed_dag, conversion_data, assignments)
    source.append(
        f'========== Target {i} ==========<br>' + '<span style="white-space: pre; font-family: monospace;">'
        + html.escape(common_prefix) + '</span>'
        + edit_dags.extract_edit_sequence_html(
            path, prototype=prototype, target=target, start_editing_marker=('፠' if self.show_start_editing_marker else ''))
        + '<br>')
  return ''.join(source)


def compute_sample_system_info(
    all_packed_dags: Sequence[packed_dags.PackedStateDAG], conversion_datas: Sequence[packed_dags.PackedStateDAGConversionData],
    assignments: dict[DecisionKey, DecisionValue], total_cost: Optional[float] = None) -> dict[str, Any]:
  costs = []
  for packed_dag, conversion_data in zip(all_packed_dags, conversion_datas):
    path, _ = packed_dags.constrained_best_path(packed_dag, conversion_data, assignments)
    costs.append(sum(edge.cost for edge in path))
  sorted_costs = sorted(costs)
  result = {
      'sample_system_costs_unsorted': costs,
      'sample_system_costs': sorted_costs,
      'sample_system_cost_average': np.mean(sorted_costs),
      'sample_system_cost_variance': np.var(sorted_costs, ddof=1)}
  if total_cost is not None:
    result['true_cost_rank_in_sample_system'] = bisect.bisect_left(sorted_costs, total_cost)
  return result

"""Costs, baselines and systems of the high-level wrappers."""
import bisect
import functools
import html
import math
from typing import Any, Optional, Sequence
import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.decision_diagrams import gated_state_dag
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import constraint_dags
from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.edit_distance_utility import region_decisions
from r_u_sure.edit_distance_utility.region_decisions import DecisionCategory, DecisionKey, DecisionValue
from r_u_sure.parsing import sequence_from_pseudo_parse
from r_u_sure.parsing.pseudo_parser import stack_parser
from r_u_sure.parsing.pseudo_parser import utilities as parse_utilities
from r_u_sure.tree_structure import packed_sequence_nodes
from r_u_sure.tree_structure import sequence_node_helpers
from r_u_sure.tree_structure import sequence_nodes
from r_u_sure.tree_structure import token_prob_align
from r_u_sure.tree_structure import transforms
from r_u_sure.tree_structure.packed_sequence_nodes import InOrderTraversalCategory
from r_u_sure.tree_structure.packed_sequence_nodes import PackedSequenceNodeCategory as Category
from r_u_sure.tree_structure.packed_sequence_nodes import PackedSequenceNodeStorage
from r_u_sure.wrappers import parser_tools
from r_u_sure.wrappers import uncertainty_regions_wrapper
from r_u_sure.wrappers import wrapper_base
from r_u_sure.wrappers.edit_distance_wrapper_base import EditDistanceWrapperBase
from r_u_sure.wrappers.parser_tools import ParserHelper
from r_u_sure.wrappers.prefix_truncation_wrapper import PrefixByEditDistanceBaselineBuilder, PrefixByEditDistanceWrapper
from r_u_sure.wrappers.uncertainty_regions_wrapper import UncertaintyRegionsBaselineBuilder, UncertaintyRegionsWrapper


def derive_uncertainty_region_costs(
    effective_precision: float, high_confidence_start_editing_cost: float,
    low_confidence_edit_sensitivity: float) -> edit_dags.TrustRegionUtilityParameters:
  p, s, h = effective_precision, low_confidence_edit_sensitivity, high_confidence_start_editing_cost
  return edit_dags.TrustRegionUtilityParameters(
      high_confidence_match_utility_per_char=1.0,
      high_confidence_delete_cost_per_char=1.0,
      low_confidence_match_utility_per_char=2 * s - 1 + 2 * p - 2 * p * s,
      low_confidence_delete_cost_per_char=1 - 2 * p + 2 * p * s,
      insert_cost_per_char=0.0,
      low_confidence_region_cost=(1 - p) * (h - s * h),
      high_confidence_start_editing_cost=h,
      low_confidence_start_editing_cost=s * h)


def UncertaintyRegionsWrapper____init__(
    self: UncertaintyRegionsWrapper, effective_precision: float = 0.7, high_confidence_start_inserting_cost: float = 5.0,
    low_confidence_edit_sensitivity: float = 0.5, use_numba: bool = True,
    baseline_token_prob_thresholds: tuple[float, ...] = (0.3, 0.5, 0.7, 0.9),
    baseline_example_fractions: tuple[float, ...] = (0.0, 0.5, 1.0), baseline_depth_cutoffs: tuple[tuple[int, int], ...] = ()):
  self._baseline_token_prob_thresholds = baseline_token_prob_thresholds
  self._baseline_example_fractions = baseline_example_fractions
  self._baseline_depth_cutoffs = baseline_depth_cutoffs
  self._character_count_cost_config = uncertainty_regions_wrapper.derive_uncertainty_region_costs(
      effective_precision, high_confidence_start_inserting_cost, low_confidence_edit_sensitivity)
  EditDistanceWrapperBase.__init__(self, utility_config=self._character_count_cost_config, use_numba=use_numba)


def UncertaintyRegionsWrapper__process_prototype_and_context(
    self: UncertaintyRegionsWrapper, context_and_prototype: list[sequence_nodes.SequenceNode], prediction_location: int):
  return self._process_prototype_and_context_maybe_exit(
      context_and_prototype, prediction_location, can_insert_low_confidence=True, can_early_exit=False)


def UncertaintyRegionsWrapper__build_baseline_assignments(
    self: UncertaintyRegionsWrapper, prototype: PackedSequenceNodeStorage, prototype_suggestion_as_target: PackedSequenceNodeStorage,
    context_info: Any, model_tokens_and_log_probs: list[tuple[str, float]]):
  baseline_builder = UncertaintyRegionsBaselineBuilder(
      wrapper=self, prototype=prototype, prototype_suggestion_as_target=prototype_suggestion_as_target, context_info=context_info,
      model_tokens_and_log_probs=model_tokens_and_log_probs)
  results = {}
  for prob_threshold in self._baseline_token_prob_thresholds:
    results[f'prob_threshold_{prob_threshold}_nonempty'] = baseline_builder.baseline_assignment_from_token_probabilities(
        prob_threshold, only_constrain_nonempty=True, cumulative=False)
    results[f'prob_threshold_{prob_threshold}_cumulative'] = baseline_builder.baseline_assignment_from_token_probabilities(
        prob_threshold, only_constrain_nonempty=True, cumulative=True)
  for example_fraction in self._baseline_example_fractions:
    results[f'example_fraction_{example_fraction}'] = baseline_builder.baseline_assignment_from_example_fraction(example_fraction)
  for ancestor_cutoff, child_cutoff in self._baseline_depth_cutoffs:
    results[f'cutoff_anc_{ancestor_cutoff}_child_{child_cutoff}'] = baseline_builder.baseline_assignment_from_depth_cutoff(
        ancestor_depth_cutoff=ancestor_cutoff, child_depth_cutoff=child_cutoff)
  return results


def UncertaintyRegionsBaselineBuilder____init__(
    self: UncertaintyRegionsBaselineBuilder, wrapper: UncertaintyRegionsWrapper, prototype: PackedSequenceNodeStorage,
    prototype_suggestion_as_target: PackedSequenceNodeStorage, context_info: Any, model_tokens_and_log_probs: list[tuple[str, float]]):
  self.prototype = prototype
  self.prototype_suggestion_as_target = prototype_suggestion_as_target
  self.context_info = context_info
  self.model_tokens_and_log_probs = model_tokens_and_log_probs
  self.aligned_log_probs = token_prob_align.align_token_log_probs(model_tokens_and_log_probs, prototype)
  self.baseline_system = wrapper.build_system(
      prototype=prototype, context_info=context_info, targets=[prototype_suggestion_as_target])


def UncertaintyRegionsBaselineBuilder___assignment_from_low_confidence_nodes(
    self: UncertaintyRegionsBaselineBuilder, low_confidence_preorder_indices: list[int]) -> dict[DecisionKey, DecisionValue]:
  constraints = {DecisionKey(i, DecisionCategory.NODE_IN_REGION): DecisionValue.TRUE for i in low_confidence_preorder_indices}
  system_copy = solver.clone_system(self.baseline_system)
  solver.constrain_system(system_copy, constraints, penalty=1e6)
  solver.solve_system_with_sweeps(system_data=system_copy.data, soft_timeout=10.0)
  greedy_assignments, _ = solver.greedy_extract(system_copy.data, direction=solver.SweepDirection.FORWARD)
  return solver.assignments_from_assignment_vector(system_copy, greedy_assignments)


def UncertaintyRegionsBaselineBuilder__baseline_assignment_from_token_probabilities(
    self: UncertaintyRegionsBaselineBuilder, probability_threshold: float, only_constrain_nonempty: bool,
    cumulative: bool) -> dict[DecisionKey, DecisionValue]:
  low_confidence_nodes = []
  current_log_prob = 0.0
  for preorder_index, log_prob in self.aligned_log_probs.items():
    current_log_prob = (current_log_prob + log_prob) if cumulative else log_prob
    if math.exp(current_log_prob) < probability_threshold:
      if not only_constrain_nonempty:
        low_confidence_nodes.append(preorder_index)
      else:
        node_id = self.prototype.preorder_traversal[preorder_index]
        assert node_id.category == Category.TEXT_TOKEN_NODE
        if self.prototype.text_token_nodes[node_id.index_in_category].text_contents:
          low_confidence_nodes.append(preorder_index)
  return self._assignment_from_low_confidence_nodes(low_confidence_nodes)


def UncertaintyRegionsBaselineBuilder__baseline_assignment_from_character_offset(
    self: UncertaintyRegionsBaselineBuilder, offset_in_chars: float) -> dict[DecisionKey, DecisionValue]:
  low_confidence_nodes = []
  seen_so_far = 0
  for node_id in self.prototype.preorder_traversal:
    if node_id.category == Category.TEXT_DECORATION_NODE:
      seen_so_far += len(self.prototype.text_decoration_nodes[node_id.index_in_category].text_contents)
    elif node_id.category == Category.TEXT_TOKEN_NODE:
      text = self.prototype.text_token_nodes[node_id.index_in_category].text_contents
      seen_so_far += len(text)
      if text and seen_so_far > offset_in_chars:
        low_confidence_nodes.append(node_id.preorder_index)
  return self._assignment_from_low_confidence_nodes(low_confidence_nodes)


def UncertaintyRegionsBaselineBuilder__baseline_assignment_from_example_fraction(
    self: UncertaintyRegionsBaselineBuilder, fraction: float) -> dict[DecisionKey, DecisionValue]:
  total_size = 0
  for node_id in self.prototype.preorder_traversal:
    if node_id.category == Category.TEXT_DECORATION_NODE:
      total_size += len(self.prototype.text_decoration_nodes[node_id.index_in_category].text_contents)
    elif node_id.category == Category.TEXT_TOKEN_NODE:
      total_size += len(self.prototype.text_token_nodes[node_id.index_in_category].text_contents)
  return self.baseline_assignment_from_character_offset(fraction * total_size)


def UncertaintyRegionsBaselineBuilder__baseline_assignment_from_depth_cutoff(
    self: UncertaintyRegionsBaselineBuilder, ancestor_depth_cutoff: int, child_depth_cutoff: int) -> dict[DecisionKey, DecisionValue]:
  if child_depth_cutoff < 1 or ancestor_depth_cutoff < 1:
    raise ValueError('cutoffs must be >= 1')
  low_confidence_nodes = []
  current_depth = 0
  first_token_depth: Optional[int] = None
  for item in packed_sequence_nodes.in_order_traversal(self.prototype, strip_decorations=True):
    if item.category == InOrderTraversalCategory.BEFORE_GROUP:
      current_depth += 1
    elif item.category == InOrderTraversalCategory.AFTER_GROUP:
      current_depth -= 1
    elif item.node_id.category == Category.TEXT_TOKEN_NODE:
      if first_token_depth is None:
        first_token_depth = current_depth
      elif current_depth - first_token_depth >= child_depth_cutoff or first_token_depth - current_depth >= ancestor_depth_cutoff:
        low_confidence_nodes.append(item.node_id.preorder_index)
  return self._assignment_from_low_confidence_nodes(low_confidence_nodes)


def PrefixByEditDistanceWrapper____init__(
    self: PrefixByEditDistanceWrapper, start_editing_cost: float = 0.0, also_insert_uncertainty_regions: bool = False,
    uncertainty_region_effective_precision: float = 0.7, low_confidence_edit_sensitivity: float = 0.5,
    baseline_token_prob_thresholds: tuple[float, ...] = (0.0, 0.3, 0.5, 0.7, 0.9),
    baseline_prefix_prob_thresholds: tuple[float, ...] = (0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9),
    baseline_max_avg_log_prob: bool = True, baseline_intellicode: bool = True,
    baseline_max_characters: tuple[int, ...] = (20, 50, 100, 200, 500), baseline_max_lines: tuple[int, ...] = (1, 2, 4, 8, 16),
    use_numba: bool = True):
  self._also_insert_uncertainty_regions = also_insert_uncertainty_regions
  self._baseline_token_prob_thresholds = baseline_token_prob_thresholds
  self._baseline_prefix_prob_thresholds = baseline_prefix_prob_thresholds
  self._baseline_max_avg_log_prob = baseline_max_avg_log_prob
  self._baseline_intellicode = baseline_intellicode
  self._baseline_max_characters = baseline_max_characters
  self._baseline_max_lines = baseline_max_lines
  self._character_count_cost_config = uncertainty_regions_wrapper.derive_uncertainty_region_costs(
      effective_precision=uncertainty_region_effective_precision, high_confidence_start_editing_cost=start_editing_cost,
      low_confidence_edit_sensitivity=low_confidence_edit_sensitivity)
  EditDistanceWrapperBase.__init__(self, utility_config=self._character_count_cost_config, use_numba=use_numba)


def PrefixByEditDistanceWrapper__process_prototype_and_context(
    self: PrefixByEditDistanceWrapper, context_and_prototype: list[sequence_nodes.SequenceNode], prediction_location: int):
  return self._process_prototype_and_context_maybe_exit(
      context_and_prototype, prediction_location, can_insert_low_confidence=self._also_insert_uncertainty_regions, can_early_exit=True)


def PrefixByEditDistanceWrapper__build_baseline_assignments(
    self: PrefixByEditDistanceWrapper, prototype: PackedSequenceNodeStorage, prototype_suggestion_as_target: PackedSequenceNodeStorage,
    context_info: Any, model_tokens_and_log_probs: list[tuple[str, float]]):
  if self._also_insert_uncertainty_regions:
    return {}
  baseline_builder = PrefixByEditDistanceBaselineBuilder(
      prototype=prototype, prototype_suggestion_as_target=prototype_suggestion_as_target, context_info=context_info,
      model_tokens_and_log_probs=model_tokens_and_log_probs)
  results = {}
  for prob_threshold in self._baseline_token_prob_thresholds:
    results[f'prob_threshold_{prob_threshold}'] = baseline_builder.baseline_assignment_from_token_prob(prob_threshold, cumulative=False)
  for prob_threshold in self._baseline_prefix_prob_thresholds:
    results[f'prefix_prob_threshold_{prob_threshold}'] = baseline_builder.baseline_assignment_from_token_prob(
        prob_threshold, cumulative=True)
  if self._baseline_intellicode:
    results['intellicode'] = baseline_builder.baseline_assignment_from_intellicode_compose()
  if self._baseline_max_avg_log_prob:
    results['max_avg_log_prob'] = baseline_builder.baseline_assignment_from_max_average_log_prob()
  for character_length in self._baseline_max_characters:
    results[f'character_length_{character_length}'] = baseline_builder.baseline_assignment_from_characters(character_length)
  for line_length in self._baseline_max_lines:
    results[f'line_length_{line_length}'] = baseline_builder.baseline_assignment_from_lines(line_length)
  return results


def PrefixByEditDistanceBaselineBuilder____init__(
    self: PrefixByEditDistanceBaselineBuilder, prototype: PackedSequenceNodeStorage,
    prototype_suggestion_as_target: PackedSequenceNodeStorage, context_info: Any, model_tokens_and_log_probs: list[tuple[str, float]]):
  self.prototype = prototype
  self.prototype_suggestion_as_target = prototype_suggestion_as_target
  self.context_info = context_info
  self.model_tokens_and_log_probs = model_tokens_and_log_probs
  self.aligned_log_probs = token_prob_align.align_token_log_probs(model_tokens_and_log_probs, prototype)


def PrefixByEditDistanceBaselineBuilder___assignment_from_exit_point(
    self: PrefixByEditDistanceBaselineBuilder, early_exit_preorder_index: Optional[int]) -> dict[DecisionKey, DecisionValue]:
  constraints = {}
  already_exited = False
  for node_id in self.prototype.preorder_traversal:
    if node_id.category == Category.REGION_START_NODE:
      constraints[DecisionKey(node_id.preorder_index, DecisionCategory.REGION_SHOULD_START)] = DecisionValue.FALSE
    elif node_id.category == Category.EARLY_EXIT_NODE:
      key = DecisionKey(node_id.preorder_index, DecisionCategory.SHOULD_EARLY_EXIT)
      if node_id.preorder_index == early_exit_preorder_index:
        assert not already_exited
        already_exited = True
        constraints[key] = DecisionValue.TRUE
      elif not already_exited:
        constraints[key] = DecisionValue.FALSE
      else:
        constraints[key] = DecisionValue.NOT_APPLICABLE
  if early_exit_preorder_index is not None and not already_exited:
    raise ValueError('no such exit')
  return constraints


def PrefixByEditDistanceBaselineBuilder__baseline_assignment_from_token_prob(
    self: PrefixByEditDistanceBaselineBuilder, probability_threshold: float, cumulative: bool) -> dict[DecisionKey, DecisionValue]:
  current_log_prob = 0.0
  last_exit_seen: Optional[int] = None
  should_exit_at_next_opportunity = False
  for node_id in self.prototype.preorder_traversal:
    if node_id.category == Category.EARLY_EXIT_NODE:
      last_exit_seen = node_id.preorder_index
      if should_exit_at_next_opportunity:
        return self._assignment_from_exit_point(node_id.preorder_index)
    elif node_id.category == Category.TEXT_TOKEN_NODE:
      if self.prototype.text_token_nodes[node_id.index_in_category].text_contents:
        node_log_prob = self.aligned_log_probs[node_id.preorder_index]
        current_log_prob = current_log_prob + node_log_prob if cumulative else node_log_prob
        if math.exp(current_log_prob) < probability_threshold:
          if last_exit_seen is None:
            should_exit_at_next_opportunity = True
          else:
            return self._assignment_from_exit_point(last_exit_seen)
  return self._assignment_from_exit_point(None)


def PrefixByEditDistanceBaselineBuilder__baseline_assignment_from_max_average_log_prob(
    self: PrefixByEditDistanceBaselineBuilder) -> dict[DecisionKey, DecisionValue]:
  current_log_prob = 0.0
  current_token_count = 0
  best_average_log_prob_at_exit_point = -math.inf
  best_exit: Optional[int] = None
  for node_id in self.prototype.preorder_traversal:
    if node_id.category == Category.EARLY_EXIT_NODE:
      if current_token_count > 0:
        average = current_log_prob / current_token_count
        if average > best_average_log_prob_at_exit_point:
          best_average_log_prob_at_exit_point = average
          best_exit = node_id.preorder_index
    elif node_id.category == Category.TEXT_TOKEN_NODE:
      if self.prototype.text_token_nodes[node_id.index_in_category].text_contents:
        current_log_prob += self.aligned_log_probs[node_id.preorder_index]
        current_token_count += 1
  return self._assignment_from_exit_point(best_exit)


def PrefixByEditDistanceBaselineBuilder__baseline_assignment_from_intellicode_compose(
    self: PrefixByEditDistanceBaselineBuilder, alpha: float = 0.8, kappa: float = 10.0) -> dict[DecisionKey, DecisionValue]:
  last_exit_seen: Optional[int] = None
  should_exit_at_next_opportunity = False
  tokens_seen = 0
  for node_id in self.prototype.preorder_traversal:
    if node_id.category == Category.EARLY_EXIT_NODE:
      last_exit_seen = node_id.preorder_index
      if should_exit_at_next_opportunity:
        return self._assignment_from_exit_point(node_id.preorder_index)
    elif node_id.category == Category.TEXT_TOKEN_NODE:
      if self.prototype.text_token_nodes[node_id.index_in_category].text_contents:
        ratio = alpha / (1 + math.exp(-tokens_seen / kappa))
        if math.exp(self.aligned_log_probs[node_id.preorder_index]) < ratio:
          if last_exit_seen is None:
            should_exit_at_next_opportunity = True
          else:
            return self._assignment_from_exit_point(last_exit_seen)
        tokens_seen += 1
  return self._assignment_from_exit_point(None)


def PrefixByEditDistanceBaselineBuilder__baseline_assignment_from_characters(
    self: PrefixByEditDistanceBaselineBuilder, max_token_characters: int) -> dict[DecisionKey, DecisionValue]:
  characters_so_far = 0
  should_exit_at_next_opportunity = False
  for node_id in self.prototype.preorder_traversal:
    if node_id.category == Category.EARLY_EXIT_NODE:
      if should_exit_at_next_opportunity:
        return self._assignment_from_exit_point(node_id.preorder_index)
    elif node_id.category == Category.TEXT_TOKEN_NODE:
      characters_so_far += len(self.prototype.text_token_nodes[node_id.index_in_category].text_contents)
      if characters_so_far >= max_token_characters:
        should_exit_at_next_opportunity = True
  return self._assignment_from_exit_point(None)


def PrefixByEditDistanceBaselineBuilder__baseline_assignment_from_lines(
    self: PrefixByEditDistanceBaselineBuilder, max_lines: int) -> dict[DecisionKey, DecisionValue]:
  newlines_so_far = 0
  should_exit_at_next_opportunity = False
  for node_id in self.prototype.preorder_traversal:
    if node_id.category == Category.EARLY_EXIT_NODE:
      if should_exit_at_next_opportunity:
        return self._assignment_from_exit_point(node_id.preorder_index)
    elif node_id.category == Category.TEXT_DECORATION_NODE:
      if '\n' in self.prototype.text_decoration_nodes[node_id.index_in_category].text_contents:
        newlines_so_far += 1
        if newlines_so_far >= max_lines:
          should_exit_at_next_opportunity = True
  return self._assignment_from_exit_point(None)

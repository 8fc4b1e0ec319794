"""API call extraction: the call tree, its costs, baselines and results."""
import functools
import html
import re
from typing import Any, Iterator, Optional, Sequence
import numba
import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.decision_diagrams import gated_state_dag
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import constraint_dags
from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.edit_distance_utility import part_selection_dags
from r_u_sure.edit_distance_utility import region_decisions
from r_u_sure.edit_distance_utility.region_decisions import DecisionCategory, DecisionKey, DecisionValue
from r_u_sure.parsing import python_builtin_tokens
from r_u_sure.tree_structure import packed_sequence_nodes
from r_u_sure.tree_structure import sequence_node_helpers
from r_u_sure.tree_structure import sequence_nodes
from r_u_sure.tree_structure import transforms
from r_u_sure.tree_structure.packed_sequence_nodes import PackedSequenceNodeCategory as Category
from r_u_sure.tree_structure.packed_sequence_nodes import PackedSequenceNodeStorage
from r_u_sure.tree_structure.sequence_nodes import GroupNode, RegionEndNode, RegionStartNode, SequenceNode, TextDecorationNode, TextTokenNode
from r_u_sure.wrappers import call_sequence_wrapper
from r_u_sure.wrappers import parser_tools
from r_u_sure.wrappers import wrapper_base
from r_u_sure.wrappers.call_sequence_wrapper import ApiCallSequenceWrapper


def extract_context_tokens(context_and_prototype: list[SequenceNode], prediction_location: int) -> set[str]:
  seen_tokens = set()
  position = 0
  for node, _, _ in sequence_node_helpers.walk_with_paths(context_and_prototype):
    if isinstance(node, TextTokenNode):
      seen_tokens.add(node.text_contents)
    if isinstance(node, (TextTokenNode, TextDecorationNode)):
      position += len(node.text_contents)
      if position >= prediction_location:
        break
  return seen_tokens


def ApiCallSequenceWrapper___is_paren(self: ApiCallSequenceWrapper, node: SequenceNode) -> bool:
  return (isinstance(node, GroupNode) and node.match_type == 'MATCH' and len(node.children) == 3
          and node.children[0] == TextTokenNode('(', 'MATCH_LEFT'))


def ApiCallSequenceWrapper___extract_all_from(
    self: ApiCallSequenceWrapper, node_sequence: Sequence[SequenceNode], expected_tokens: set[str]) -> Iterator[list[SequenceNode]]:
  started_candidate = False
  ended_candidate = False
  candidate: list[SequenceNode] = []
  after_candidate: list[SequenceNode] = []
  for node in node_sequence:
    if ended_candidate:
      after_candidate.append(node)
    else:
      if not isinstance(node, TextDecorationNode):
        started_candidate = True
      if started_candidate:
        candidate.append(node)
      if isinstance(node, GroupNode):
        ended_candidate = True
  if (len(candidate) >= 2 and candidate[0] != TextTokenNode('def', 'CONTENT_LEAF')
      and candidate[0] != TextTokenNode('class', 'CONTENT_LEAF')
      and self._is_paren(candidate[-1]) and isinstance(candidate[-2], TextTokenNode)):
    reverse_outs = []
    reverse_outs.append(RegionEndNode())
    reverse_outs.append(TextTokenNode(')', 'END_CALL'))
    args_text = sequence_node_helpers.render_text_contents(candidate[-1].children[1])
    reverse_outs.append(TextTokenNode(args_text, 'ARGS') if args_text else TextTokenNode('', 'EMPTY_ARGS'))
    reverse_outs.append(RegionEndNode())
    reverse_outs.append(TextTokenNode('(', 'START_CALL'))
    for node in candidate[::-1]:
      if isinstance(node, TextTokenNode):
        if node == TextTokenNode('.', 'CONTENT_LEAF'):
          reverse_outs.append(TextTokenNode('.', 'ATTRIBUTE_DOT'))
          reverse_outs.append(RegionStartNode())
        elif node.text_contents in expected_tokens:
          reverse_outs.append(TextTokenNode(node.text_contents, 'EXPECTED'))
        else:
          reverse_outs.append(TextTokenNode(node.text_contents, 'NOVEL'))
      elif isinstance(node, TextDecorationNode):
        if re.fullmatch(r'\s+', node.text_contents):
          reverse_outs.append(RegionStartNode())
        reverse_outs.append(node)
    reverse_outs.append(RegionStartNode())
    yield reverse_outs[::-1]
  else:
    for node in candidate:
      if isinstance(node, GroupNode):
        yield from self._extract_all_from(node.children, expected_tokens)
  for node in after_candidate:
    if isinstance(node, GroupNode):
      yield from self._extract_all_from(node.children, expected_tokens)


def ApiCallSequenceWrapper___make_callseq_tree(
    self: ApiCallSequenceWrapper, context_and_suggestion: list[SequenceNode], prediction_location: int) -> list[SequenceNode]:
  raw_text = sequence_node_helpers.render_text_contents(context_and_suggestion)
  location = raw_text[:prediction_location].rfind('\n')
  if location == -1:
    location = 0
  expected_tokens = call_sequence_wrapper.extract_context_tokens(context_and_suggestion, prediction_location).union(
      python_builtin_tokens.PYTHON_BUILTIN_TOKENS)
  result = []
  truncated_prototype = transforms.truncate_prefix_at_offset(context_and_suggestion, location)
  for seq in self._extract_all_from(truncated_prototype, expected_tokens):
    result.append(GroupNode(children=seq, match_type='API_CALL'))
    result.append(TextDecorationNode('\n'))
  return result


def ApiCallSequenceWrapper____init__(
    self: ApiCallSequenceWrapper, effective_precision: float = 0.3, use_numba: bool = True, rewrite_states: bool = True):
  def token_node_utility_fn(token: packed_sequence_nodes.PackedTextTokenNode):
    if token.match_type == 'NOVEL':
      util = 10.0
    elif token.match_type in ('ARGS', 'EMPTY_ARGS', 'EXPECTED'):
      util = 1.0
    else:
      util = 0.0
    return part_selection_dags.UtilitiesAndCostsForNode(
        match_utility=util * (1 - effective_precision), delete_cost=util * effective_precision)

  self._utility_config = part_selection_dags.PartSelectionUtilityParameters(token_node_utility_fn=token_node_utility_fn)
  self._use_numba = use_numba
  if not use_numba:
    self._prune_to_reachable = gated_state_dag.prune_to_reachable
    self._pack_selection_dag = part_selection_dags.pack_dag
    self._selection_dag_converter = lambda dag: dag
    self._pack_constraint_dag = constraint_dags.pack_dag
    self._constraint_dag_converter = lambda dag: dag
  else:
    self._pack_selection_dag, self._selection_dag_converter = part_selection_dags.make_specialized_dag_packer(
        states_rewritten_as_integers=rewrite_states)
    self._pack_constraint_dag, self._constraint_dag_converter = constraint_dags.make_specialized_dag_packer(
        states_rewritten_as_integers=rewrite_states)
    if not rewrite_states:
      self._prune_to_reachable = gated_state_dag.prune_to_reachable_jit
    else:
      self._scratch_table = np.full((2**25,), -1, dtype=np.int32)
      self._prune_to_reachable = functools.partial(
          gated_state_dag.prune_unreachable_and_rewrite_states, scratch_table=self._scratch_table)
  self._construct_selection_dag = part_selection_dags.make_selection_dag_builder(self._utility_config, with_numba=use_numba)
  self._construct_constraint_dag = constraint_dags.make_constraint_dag_builder(with_numba=use_numba)


def ApiCallSequenceWrapper__process_prototype_and_context(
    self: ApiCallSequenceWrapper, context_and_prototype: list[SequenceNode], prediction_location: int):
  tree = self._make_callseq_tree(context_and_prototype, prediction_location)
  return parser_tools.pack_sequence_from_pseudoparser(tree, with_numba=self._use_numba), {}


def ApiCallSequenceWrapper__process_target(
    self: ApiCallSequenceWrapper, context_and_target: list[SequenceNode], prediction_location: int) -> PackedSequenceNodeStorage:
  tree = transforms.strip_decision_nodes(self._make_callseq_tree(context_and_target, prediction_location))
  return parser_tools.pack_sequence_from_pseudoparser(tree, with_numba=self._use_numba)


def ApiCallSequenceWrapper__build_baseline_assignments(
    self: ApiCallSequenceWrapper, prototype: PackedSequenceNodeStorage, prototype_suggestion_as_target: PackedSequenceNodeStorage,
    context_info: Any, model_tokens_and_log_probs: list[tuple[str, float]]):
  all_calls_full = []
  all_calls_shorter = []
  novel_calls_shorter = []
  for toplevel_node_id in prototype.root_sequence:
    if toplevel_node_id.category == Category.GROUP_NODE:
      saw_novel = False
      toplevel_node = prototype.group_nodes[toplevel_node_id.index_in_category]
      last_end_node = toplevel_node.children_ids[-1]
      assert last_end_node.category == Category.REGION_END_NODE
      all_calls_full.append(last_end_node.preorder_index)
      assert toplevel_node.children_ids[-2].category == Category.TEXT_TOKEN_NODE
      assert toplevel_node.children_ids[-3].category == Category.TEXT_TOKEN_NODE
      assert toplevel_node.children_ids[-4].category == Category.REGION_END_NODE
      current_call_shorter_end = toplevel_node.children_ids[-4].preorder_index
      prev_start: Optional[int] = None
      current_call_shorter_start: Optional[int] = None
      for child_id in toplevel_node.children_ids[-5::-1]:
        if child_id.category == Category.TEXT_TOKEN_NODE:
          if prototype.text_token_nodes[child_id.index_in_category].match_type == 'NOVEL':
            saw_novel = True
        elif child_id.category == Category.TEXT_DECORATION_NODE:
          assert prev_start is not None
          current_call_shorter_start = prev_start
          break
        elif child_id.category == Category.REGION_START_NODE:
          prev_start = child_id.preorder_index
      if current_call_shorter_start is None:
        assert prev_start is not None
        current_call_shorter_start = prev_start
      first_start_node = toplevel_node.children_ids[0]
      assert first_start_node.category == Category.REGION_START_NODE
      all_calls_full.append(first_start_node.preorder_index)
      all_calls_shorter.append(current_call_shorter_start)
      all_calls_shorter.append(current_call_shorter_end)
      if saw_novel:
        novel_calls_shorter.append(current_call_shorter_start)
        novel_calls_shorter.append(current_call_shorter_end)

  def _make_suggestion(preorder_indices: set[int]):
    assignment = {}
    seen_indices = set()
    is_in_low_conf = False
    for node_id in prototype.preorder_traversal:
      index = node_id.preorder_index
      if node_id.category == Category.REGION_START_NODE:
        seen_indices.add(index)
        if index in preorder_indices:
          assert not is_in_low_conf
          assignment[DecisionKey(index, DecisionCategory.REGION_SHOULD_START)] = DecisionValue.TRUE
          is_in_low_conf = True
        elif is_in_low_conf:
          assignment[DecisionKey(index, DecisionCategory.REGION_SHOULD_START)] = DecisionValue.NOT_APPLICABLE
        else:
          assignment[DecisionKey(index, DecisionCategory.REGION_SHOULD_START)] = DecisionValue.FALSE
      elif node_id.category == Category.REGION_END_NODE:
        seen_indices.add(index)
        if index in preorder_indices:
          assert is_in_low_conf
          assignment[DecisionKey(index, DecisionCategory.REGION_SHOULD_END)] = DecisionValue.TRUE
          is_in_low_conf = False
        elif is_in_low_conf:
          assignment[DecisionKey(index, DecisionCategory.REGION_SHOULD_END)] = DecisionValue.FALSE
        else:
          assignment[DecisionKey(index, DecisionCategory.REGION_SHOULD_END)] = DecisionValue.NOT_APPLICABLE
    remaining = preorder_indices - seen_indices
    assert not remaining
    return assignment

  return {
      'all_calls_full': _make_suggestion(set(all_calls_full)),
      'all_calls_shorter': _make_suggestion(set(all_calls_shorter)),
      'novel_calls_shorter': _make_suggestion(set(novel_calls_shorter))}


def ApiCallSequenceWrapper__build_system(
    self: ApiCallSequenceWrapper, prototype: PackedSequenceNodeStorage, context_info: Any, targets: list[PackedSequenceNodeStorage],
    target_utility_scale_factors: Optional[list[float]] = None):
  if target_utility_scale_factors is None:
    target_utility_scale_factors = [1.0 / len(targets) for _ in targets]
  dags_and_conversion_data = []
  dag_update_proportions = []
  for target, scale_factor in zip(targets, target_utility_scale_factors):
    dag = self._construct_selection_dag(prototype=prototype, target=target)
    packed_dag, conversion_data = self._pack_selection_dag(self._prune_to_reachable(dag))
    dags_and_conversion_data.append((packed_dags.scale_packed_dag_costs(packed_dag, scale_factor), conversion_data))
    dag_update_proportions.append(scale_factor)
  total = sum(target_utility_scale_factors)
  constraint_dag = self._construct_constraint_dag(prototype=prototype)
  packed_constraints, constraint_conversion = self._pack_constraint_dag(self._prune_to_reachable(constraint_dag))
  dags_and_conversion_data.append((packed_dags.scale_packed_dag_costs(packed_constraints, total), constraint_conversion))
  dag_update_proportions.append(total)
  return solver.make_system(dags_and_conversion_data, dag_update_proportions=np.array(dag_update_proportions))


def ApiCallSequenceWrapper__solution_info(
    self: ApiCallSequenceWrapper, prototype: PackedSequenceNodeStorage, evaluation_target: Optional[PackedSequenceNodeStorage],
    context_info: Any, system: Optional[solver.DualDecompositionDiagramSystem], assignments: dict[DecisionKey, DecisionValue],
    sample_system: Optional[solver.DualDecompositionDiagramSystem] = None) -> dict[Any, Any]:
  parts = []
  for region_info in region_decisions.extract_sequence_with_regions(prototype, assignments):
    parts.append((region_info.token_or_decoration, region_info.in_annotated_region))
  result = {'extracted_parts': parts}
  if system is not None and evaluation_target is not None:
    assert len(system.data.dag_tables) == 2
    path, _ = packed_dags.constrained_best_path(system.data.dag_tables[0].dag, system.conversion_data[0], assignments)
    result['total_cost'] = sum(edge.cost for edge in path)
    correct_novel = 0
    correct_not_novel = 0
    correct_args = 0
    deleted_novel = 0
    deleted_not_novel = 0
    deleted_args = 0
    for edge in path:
      if edge.info is not None:
        assert isinstance(edge.info, part_selection_dags.PartSelectionDagEdgeInfo)
        if edge.info.prototype_node_preorder_index != edit_dags.NO_PREORDER_INDEX:
          node_id = prototype.preorder_traversal[edge.info.prototype_node_preorder_index]
          if node_id.category == Category.TEXT_TOKEN_NODE:
            match_type = prototype.text_token_nodes[node_id.index_in_category].match_type
            if edge.info.category == part_selection_dags.DagStateCategory.SELECT_MATCHED:
              if match_type == 'NOVEL':
                correct_novel += 1
              elif match_type == 'EXPECTED':
                correct_not_novel += 1
              elif match_type == 'ARGS':
                correct_args += 1
            elif edge.info.category == part_selection_dags.DagStateCategory.SELECT_UNMATCHED:
              if match_type == 'NOVEL':
                deleted_novel += 1
              elif match_type == 'EXPECTED':
                deleted_not_novel += 1
              elif match_type == 'ARGS':
                deleted_args += 1
    result.update({
        'correct_novel': correct_novel, 'correct_not_novel': correct_not_novel, 'correct_args': correct_args,
        'deleted_novel': deleted_novel, 'deleted_not_novel': deleted_not_novel, 'deleted_args': deleted_args})
  if sample_system is not None:
    result.update(wrapper_base.compute_sample_system_info(
        all_packed_dags=[table.dag for table in sample_system.data.dag_tables[:-1]],
        conversion_datas=sample_system.conversion_data[:-1], assignments=assignments, total_cost=result.get('total_cost')))
  return result


def ApiCallSequenceWrapper__render_solution_html(
    self: ApiCallSequenceWrapper, prototype: PackedSequenceNodeStorage, context_info: Any,
    assignments: dict[DecisionKey, DecisionValue]) -> str:
  return region_decisions.render_regions_to_html(prototype, assignments)


def ApiCallSequenceWrapper__render_pairwise_matching_html(
    self: ApiCallSequenceWrapper, prototype: PackedSequenceNodeStorage, targets: list[PackedSequenceNodeStorage], context_info: Any,
    system: solver.DualDecompositionDiagramSystem, assignments: dict[DecisionKey, DecisionValue]) -> str:
  source = []
  all_packed_dags = [table.dag for table in system.data.dag_tables[:-1]]
  for i, (packed_dag, conversion_data, target) in enumerate(zip(all_packed_dags, system.conversion_data, targets)):
    path, _ = packed_dags.constrained_best_path(packed_dag, conversion_data, assignments)
    source.append(f'========== Target {i} ==========<br>' + '<span style="white-space: pre; font-family: monospace;">')
    for part in part_selection_dags.extract_match_groups(path, prototype=prototype, target=target):
      if part.category == part_selection_dags.DagStateCategory.SELECT_MATCHED:
        source.append(f"MATCHED: {html.escape(' '.join(part.content_tokens))}<br>")
      elif part.category == part_selection_dags.DagStateCategory.SELECT_UNMATCHED:
        source.append(f"WRONG: {html.escape(' '.join(part.content_tokens))}<br>")
    source.append('</span><br>')
  return ''.join(source)

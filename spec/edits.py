"""Reference: the graph of edits that turn a suggestion into a target."""
from __future__ import annotations
import collections
import html
import textwrap
import numba
from r_u_sure.decision_diagrams import gated_state_dag as gd
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import edit_dags as e
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn

Align = e.EditDagStateAlignment
Conf = e.EditDagStateConfidence
State = e.EditDagState
Info = e.EditDagEdgeInfo
Action = e.EditAction
Value = rd.DecisionValue
Kind = rd.DecisionCategory
Node = psn.PackedSequenceNodeCategory
NOWHERE = psn.NO_PREORDER_INDEX
HIGH, LOW, NA = Conf.HIGH_CONFIDENCE, Conf.LOW_CONFIDENCE, Conf.NOT_APPLICABLE


def EditDagStateAlignment__shortname(self: e.EditDagStateAlignment):
  if self == Align.PROCESS_PROTOTYPE:
    return 'Advance'
  if self == Align.MAY_DELETE:
    return 'Delete'
  if self == Align.MAY_INSERT:
    return 'Insert'
  if self == Align.MATCH:
    return 'Match'
  if self == Align.RECURSIVELY_DELETING:
    return 'Delete (forced)'
  if self == Align.RECURSIVELY_INSERTING:
    return 'Insert (forced)'
  if self == Align.SPECIAL_FINAL_STATE:
    return 'Final State'
  raise ValueError(self)


def EditDagStateConfidence__shortname(self: e.EditDagStateConfidence):
  if self == HIGH:
    return 'High'
  if self == LOW:
    return 'Low'
  if self == NA:
    return 'N/A'
  raise ValueError(self)


def token_node_utility_from_parameters(parameters: e.TrustRegionUtilityParameters, token: psn.PackedTextTokenNode):
  n = len(token.text_contents)
  return e.UtilitiesAndCostsForNode(
      high_confidence_match_utility=n * parameters.high_confidence_match_utility_per_char,
      high_confidence_delete_cost=n * parameters.high_confidence_delete_cost_per_char,
      low_confidence_match_utility=n * parameters.low_confidence_match_utility_per_char,
      low_confidence_delete_cost=n * parameters.low_confidence_delete_cost_per_char,
      insert_cost=n * parameters.insert_cost_per_char)


def node_in_low_confidence_value(confidence: e.EditDagStateConfidence):
  return Value.TRUE if confidence == LOW else Value.FALSE


def deciding(node, kind, value):
  return gd.SharedVariableAssignment(rd.DecisionKey(node.preorder_index, kind), value)


def link(graph, source, dest, cost=0, assignment=None, info=None):
  gd.partial_state_dag_add_edge(graph, gd.Edge(source, dest, cost, assignment, info))


def make_edit_dag_builder(with_numba: bool = False):

  def construct_edit_dag(prototype: psn.PackedSequenceNodeStorage, target: psn.PackedSequenceNodeStorage,
                         parameters: e.TrustRegionUtilityParameters):
    root = psn.ROOT_SEQUENCE_PREORDER_INDEX
    start = State(Align.PROCESS_PROTOTYPE, HIGH, root, 0, root, 0)
    if with_numba:
      render_data = e.EditDagRenderData(subproblem_list=numba.typed.List.empty_list(e.SUBPROBLEM_NUMBA_TYPE))
      incomplete_graph = gd.PartialStateDAG(
          initial_state=start, edges=numba.typed.List.empty_list(e.EDGE_NUMBA_TYPE),
          seen_outgoing=numba.typed.Dict.empty(e.STATE_NUMBA_TYPE, e.STATE_NUMBA_TYPE))
    else:
      render_data = e.EditDagRenderData(subproblem_list=[])
      incomplete_graph = gd.partial_state_dag_starting_from(start)
    build_matching_subproblem(prototype, prototype.root_sequence, root, target, target.root_sequence, root,
                              incomplete_graph, render_data, parameters)
    end = State(Align.MATCH, HIGH, root, len(prototype.root_sequence), root, len(target.root_sequence))
    link(incomplete_graph, end, e.FINAL_STATE)
    return gd.partial_state_dag_finish(incomplete_graph, e.FINAL_STATE), render_data

  def maybe_insert_node_or_skip_decoration_in_target(
      alignment_type: e.EditDagStateAlignment, target_node_id: psn.PackedSequenceNodeID,
      target_storage: psn.PackedSequenceNodeStorage, before_prototype_node: int, prototype_sequence_preorder_index: int,
      incomplete_graph: gd.PartialStateDAG, allow_insert: bool, parameters: e.TrustRegionUtilityParameters):
    node = target_node_id
    if node.category == Node.INVALID:
      return
    place = target_storage.parents_and_offsets_from_preorder[node.preorder_index]

    def at(confidence, sequence, position, alignment=alignment_type):
      return State(alignment, confidence, prototype_sequence_preorder_index, before_prototype_node, sequence, position)

    def here(confidence):
      return at(confidence, place.parent_preorder_index, place.index_of_child_in_parent)

    def past(confidence):
      return at(confidence, place.parent_preorder_index, place.index_of_child_in_parent + 1)

    forced = Align.RECURSIVELY_INSERTING
    if node.category == Node.TEXT_DECORATION_NODE:
      link(incomplete_graph, here(HIGH), past(HIGH), info=Info(NOWHERE, node.preorder_index, Action.TARGET_DECORATION, HIGH))
      link(incomplete_graph, here(LOW), past(LOW), info=Info(NOWHERE, node.preorder_index, Action.TARGET_DECORATION, LOW))
    if not allow_insert:
      return
    if node.category == Node.TEXT_TOKEN_NODE:
      cost = e.token_node_utility_from_parameters(parameters, target_storage.text_token_nodes[node.index_in_category]).insert_cost
      link(incomplete_graph, here(HIGH), past(HIGH), cost, info=Info(NOWHERE, node.preorder_index, Action.INSERT, NA))
      link(incomplete_graph, here(LOW), past(LOW), cost, info=Info(NOWHERE, node.preorder_index, Action.INSERT, NA))
    if node.category == Node.GROUP_NODE:
      children = target_storage.group_nodes[node.index_in_category].children_ids
      link(incomplete_graph, here(HIGH), at(HIGH, node.preorder_index, 0, forced))
      link(incomplete_graph, here(LOW), at(LOW, node.preorder_index, 0, forced))
      build_recursive_insert_subsequence(target_storage, children, before_prototype_node, prototype_sequence_preorder_index,
                                         incomplete_graph, parameters)
      link(incomplete_graph, at(HIGH, node.preorder_index, len(children), forced), past(HIGH))
      link(incomplete_graph, at(LOW, node.preorder_index, len(children), forced), past(LOW))

  def maybe_delete_node_or_advance_in_prototype(
      alignment_type: e.EditDagStateAlignment, prototype_node_id: psn.PackedSequenceNodeID,
      prototype_storage: psn.PackedSequenceNodeStorage, before_target_node: int, target_sequence_preorder_index: int,
      incomplete_graph: gd.PartialStateDAG, allow_delete: bool, parameters: e.TrustRegionUtilityParameters):
    node = prototype_node_id
    if node.category == Node.INVALID:
      return
    place = prototype_storage.parents_and_offsets_from_preorder[node.preorder_index]

    def at(confidence, sequence, position, alignment=alignment_type):
      return State(alignment, confidence, sequence, position, target_sequence_preorder_index, before_target_node)

    def here(confidence):
      return at(confidence, place.parent_preorder_index, place.index_of_child_in_parent)

    def past(confidence):
      return at(confidence, place.parent_preorder_index, place.index_of_child_in_parent + 1)

    def about(action, confidence):
      return Info(node.preorder_index, NOWHERE, action, confidence)

    forced = Align.RECURSIVELY_DELETING
    if node.category == Node.TEXT_DECORATION_NODE:
      link(incomplete_graph, here(HIGH), past(HIGH), info=about(Action.PROTOTYPE_DECORATION, HIGH))
      link(incomplete_graph, here(LOW), past(LOW), info=about(Action.PROTOTYPE_DECORATION, LOW))
    elif node.category == Node.TEXT_TOKEN_NODE:
      if allow_delete:
        costs = e.token_node_utility_from_parameters(parameters, prototype_storage.text_token_nodes[node.index_in_category])
        link(incomplete_graph, here(HIGH), past(HIGH), costs.high_confidence_delete_cost,
             deciding(node, Kind.NODE_IN_REGION, Value.FALSE), about(Action.DELETE, HIGH))
        link(incomplete_graph, here(LOW), past(LOW), costs.low_confidence_delete_cost,
             deciding(node, Kind.NODE_IN_REGION, Value.TRUE), about(Action.DELETE, LOW))
    elif node.category == Node.GROUP_NODE:
      if allow_delete:
        children = prototype_storage.group_nodes[node.index_in_category].children_ids
        link(incomplete_graph, here(HIGH), at(HIGH, node.preorder_index, 0, forced), 0, deciding(node, Kind.NODE_IN_REGION, Value.FALSE))
        link(incomplete_graph, here(LOW), at(LOW, node.preorder_index, 0, forced), 0, deciding(node, Kind.NODE_IN_REGION, Value.TRUE))
        build_recursive_delete_subsequence(prototype_storage, children, before_target_node, target_sequence_preorder_index,
                                           incomplete_graph, parameters)
        link(incomplete_graph, at(HIGH, node.preorder_index, len(children), forced), past(HIGH))
        link(incomplete_graph, at(LOW, node.preorder_index, len(children), forced), past(LOW))
    elif node.category == Node.REGION_START_NODE:
      link(incomplete_graph, here(HIGH), past(HIGH), 0.0, deciding(node, Kind.REGION_SHOULD_START, Value.FALSE))
      link(incomplete_graph, here(HIGH), past(LOW), parameters.low_confidence_region_cost,
           deciding(node, Kind.REGION_SHOULD_START, Value.TRUE), about(Action.START_LOW_CONFIDENCE, NA))
      link(incomplete_graph, here(LOW), past(LOW), 0.0, deciding(node, Kind.REGION_SHOULD_START, Value.NOT_APPLICABLE))
    elif node.category == Node.REGION_END_NODE:
      link(incomplete_graph, here(LOW), past(LOW), 0.0, deciding(node, Kind.REGION_SHOULD_END, Value.FALSE))
      link(incomplete_graph, here(LOW), past(HIGH), 0.0, deciding(node, Kind.REGION_SHOULD_END, Value.TRUE))
      link(incomplete_graph, here(HIGH), past(HIGH), 0.0, deciding(node, Kind.REGION_SHOULD_END, Value.NOT_APPLICABLE))
    elif node.category == Node.EARLY_EXIT_NODE:
      for confidence in (HIGH, LOW):
        link(incomplete_graph, here(confidence), e.FINAL_STATE, 0.0, deciding(node, Kind.SHOULD_EARLY_EXIT, Value.TRUE),
             about(Action.EARLY_EXIT, confidence))
        link(incomplete_graph, here(confidence), past(confidence), 0.0, deciding(node, Kind.SHOULD_EARLY_EXIT, Value.FALSE))

  def build_matching_subproblem(
      prototype_storage: psn.PackedSequenceNodeStorage, prototype_node_ids: list[psn.PackedSequenceNodeID],
      prototype_sequence_preorder_index: int, target_storage: psn.PackedSequenceNodeStorage,
      target_node_ids: list[psn.PackedSequenceNodeID], target_sequence_preorder_index: int,
      incomplete_graph: gd.PartialStateDAG, render_data: e.EditDagRenderData, parameters: e.TrustRegionUtilityParameters):
    render_data.subproblem_list.append(e.EditDagSubproblem(prototype_sequence_preorder_index, target_sequence_preorder_index))
    for prototype_position in range(len(prototype_node_ids) + 1):
      if prototype_position < len(prototype_node_ids):
        prototype_node_id = prototype_node_ids[prototype_position]
      else:
        prototype_node_id = psn.INVALID_NODE_ID
      for target_position in range(len(target_node_ids) + 1):
        if target_position < len(target_node_ids):
          target_node_id = target_node_ids[target_position]
        else:
          target_node_id = psn.INVALID_NODE_ID
        node, other = prototype_node_id, target_node_id

        def at(alignment, confidence, advance=0):
          return State(alignment, confidence, prototype_sequence_preorder_index, prototype_position + advance,
                       target_sequence_preorder_index, target_position + advance)

        maybe_delete_node_or_advance_in_prototype(
            Align.PROCESS_PROTOTYPE, node, prototype_storage, target_position, target_sequence_preorder_index,
            incomplete_graph, False, parameters)
        link(incomplete_graph, at(Align.PROCESS_PROTOTYPE, HIGH), at(Align.MAY_DELETE, HIGH),
             parameters.high_confidence_start_editing_cost, info=Info(NOWHERE, NOWHERE, Action.START_EDITING, HIGH))
        link(incomplete_graph, at(Align.PROCESS_PROTOTYPE, HIGH), at(Align.MATCH, HIGH), 0.0)
        link(incomplete_graph, at(Align.PROCESS_PROTOTYPE, LOW), at(Align.MAY_DELETE, LOW),
             parameters.low_confidence_start_editing_cost, info=Info(NOWHERE, NOWHERE, Action.START_EDITING, LOW))
        link(incomplete_graph, at(Align.PROCESS_PROTOTYPE, LOW), at(Align.MATCH, LOW), 0.0)
        maybe_delete_node_or_advance_in_prototype(
            Align.MAY_DELETE, node, prototype_storage, target_position, target_sequence_preorder_index,
            incomplete_graph, True, parameters)
        link(incomplete_graph, at(Align.MAY_DELETE, HIGH), at(Align.MAY_INSERT, HIGH), 0.0)
        link(incomplete_graph, at(Align.MAY_DELETE, LOW), at(Align.MAY_INSERT, LOW), 0.0)
        maybe_insert_node_or_skip_decoration_in_target(
            Align.MAY_INSERT, other, target_storage, prototype_position, prototype_sequence_preorder_index,
            incomplete_graph, True, parameters)
        link(incomplete_graph, at(Align.MAY_INSERT, HIGH), at(Align.MATCH, HIGH), 0.0)
        link(incomplete_graph, at(Align.MAY_INSERT, LOW), at(Align.MATCH, LOW), 0.0)
        maybe_insert_node_or_skip_decoration_in_target(
            Align.MATCH, other, target_storage, prototype_position, prototype_sequence_preorder_index,
            incomplete_graph, False, parameters)

        # the same text of the same type may be kept
        if node.category == Node.TEXT_TOKEN_NODE and other.category == Node.TEXT_TOKEN_NODE:
          token = prototype_storage.text_token_nodes[node.index_in_category]
          there = target_storage.text_token_nodes[other.index_in_category]
          if token.text_contents == there.text_contents and token.match_type == there.match_type:
            costs = e.token_node_utility_from_parameters(parameters, token)
            link(incomplete_graph, at(Align.MATCH, HIGH), at(Align.PROCESS_PROTOTYPE, HIGH, 1), -costs.high_confidence_match_utility,
                 deciding(node, Kind.NODE_IN_REGION, Value.FALSE), Info(node.preorder_index, other.preorder_index, Action.KEEP, HIGH))
            link(incomplete_graph, at(Align.MATCH, LOW), at(Align.PROCESS_PROTOTYPE, LOW, 1), -costs.low_confidence_match_utility,
                 deciding(node, Kind.NODE_IN_REGION, Value.TRUE), Info(node.preorder_index, other.preorder_index, Action.KEEP, LOW))
        elif node.category == Node.GROUP_NODE and other.category == Node.GROUP_NODE:
          group = prototype_storage.group_nodes[node.index_in_category]
          there = target_storage.group_nodes[other.index_in_category]
          if group.match_type == there.match_type:
            for confidence, value in ((HIGH, Value.FALSE), (LOW, Value.TRUE)):
              link(incomplete_graph, at(Align.MATCH, confidence),
                   State(Align.PROCESS_PROTOTYPE, confidence, node.preorder_index, 0, other.preorder_index, 0),
                   0, deciding(node, Kind.NODE_IN_REGION, value))
            build_matching_subproblem(prototype_storage, group.children_ids, node.preorder_index, target_storage, there.children_ids,
                                      other.preorder_index, incomplete_graph, render_data, parameters)
            for confidence in (HIGH, LOW):
              link(incomplete_graph, State(Align.MATCH, confidence, node.preorder_index, len(group.children_ids),
                                           other.preorder_index, len(there.children_ids)),
                   at(Align.PROCESS_PROTOTYPE, confidence, 1))

  def build_recursive_delete_subsequence(
      prototype_storage: psn.PackedSequenceNodeStorage, prototype_node_ids: list[psn.PackedSequenceNodeID],
      fixed_before_target_node: int, fixed_target_sequence_preorder_index: int,
      incomplete_graph: gd.PartialStateDAG, parameters: e.TrustRegionUtilityParameters):
    for node in prototype_node_ids:
      maybe_delete_node_or_advance_in_prototype(
          Align.RECURSIVELY_DELETING, node, prototype_storage, fixed_before_target_node, fixed_target_sequence_preorder_index,
          incomplete_graph, True, parameters)

  def build_recursive_insert_subsequence(
      target_storage: psn.PackedSequenceNodeStorage, target_node_ids: list[psn.PackedSequenceNodeID],
      fixed_before_prototype_node: int, fixed_prototype_sequence_preorder_index: int,
      incomplete_graph: gd.PartialStateDAG, parameters: e.TrustRegionUtilityParameters):
    for node in target_node_ids:
      maybe_insert_node_or_skip_decoration_in_target(
          Align.RECURSIVELY_INSERTING, node, target_storage, fixed_before_prototype_node, fixed_prototype_sequence_preorder_index,
          incomplete_graph, True, parameters)

  return construct_edit_dag


def pack_dag(dag: gd.CompleteStateDAG):
  return packed_dags.convert_dag_to_packed(
      dag=dag, missing_assignment_value=Value.NOT_APPLICABLE, variable_value_ordering=list(Value))


def text_of(info, prototype, target):
  if info.prototype_node_preorder_index != NOWHERE:
    return psn.render_text_contents_of_node(prototype.preorder_traversal[info.prototype_node_preorder_index], prototype)
  if info.target_node_preorder_index != NOWHERE:
    return psn.render_text_contents_of_node(target.preorder_traversal[info.target_node_preorder_index], target)
  return ''


def _group_edit_sequence(path: list[gd.Edge], prototype: psn.PackedSequenceNodeStorage, target: psn.PackedSequenceNodeStorage):
  current_edit_action = None
  current_confidence = None
  current_parts = []
  current_cost = 0.0
  last_edit_action_for_decorations = None
  for edge in path:
    if edge.info is not None:
      content = text_of(edge.info, prototype, target)
      action, confidence = edge.info.edit_action, edge.info.confidence
    elif edge.cost:
      content, action, confidence = '', None, None
    else:
      continue
    # spacing goes with what it follows; the target's is left out after kept text
    if action == Action.PROTOTYPE_DECORATION:
      action = Action.DELETE if last_edit_action_for_decorations == Action.DELETE else Action.KEEP
    elif action == Action.TARGET_DECORATION:
      if last_edit_action_for_decorations == Action.KEEP:
        continue
      action, confidence = Action.INSERT, NA
    if action != current_edit_action or confidence != current_confidence:
      if current_edit_action is not None or current_cost != 0.0:
        yield (''.join(current_parts), current_edit_action, current_confidence, current_cost)
      current_edit_action = action
      current_confidence = confidence
      current_parts = []
      current_cost = 0.0
    if action is not None and action != Action.START_LOW_CONFIDENCE and action != Action.START_EDITING:
      last_edit_action_for_decorations = action
    current_parts.append(content)
    current_cost += edge.cost
  if current_edit_action is not None or current_cost != 0.0:
    yield (''.join(current_parts), current_edit_action, current_confidence, current_cost)


def extract_edit_sequence_text(path: list[gd.Edge], prototype: psn.PackedSequenceNodeStorage, target: psn.PackedSequenceNodeStorage):
  output_parts = []
  total_cost = 0.0
  for content, edit_action, confidence, cost in e._group_edit_sequence(path, prototype, target):
    action_name = None if edit_action is None else edit_action.name
    confidence_name = None if confidence is None else confidence.name
    output_parts.append(f'{action_name}, {confidence_name}: {repr(content)} => {cost}\n')
    total_cost += cost
  output_parts.append(f'FINISH (total cost: {total_cost})')
  return ''.join(output_parts)


def extract_edit_sequence_html(path: list[gd.Edge], prototype: psn.PackedSequenceNodeStorage, target: psn.PackedSequenceNodeStorage,
                               prefix: str = '', start_editing_marker: str = '፠', style_override: str = ''):
  output_parts = []
  output_parts.append(style_override if style_override else textwrap.dedent('<style></style>'))
  output_parts.append('<span class="edit_sequence_root">')
  output_parts.append(f'<span class="prefix">{html.escape(prefix)}</span>')
  last_confidence = NA
  for content, edit_action, confidence, _ in e._group_edit_sequence(path, prototype, target):
    if edit_action == Action.START_EDITING:
      content = start_editing_marker
    elif not content:
      continue
    names = []
    if edit_action == Action.INSERT:
      names.append('insert')
      if last_confidence == HIGH:
        names.append('was_high_confidence')
      elif last_confidence == LOW:
        names.append('was_low_confidence')
    elif edit_action == Action.DELETE:
      names.append('delete')
    elif edit_action == Action.KEEP:
      names.append('keep')
    elif edit_action == Action.START_EDITING:
      names.append('start_editing')
    if confidence == HIGH:
      names.append('high_confidence')
    elif confidence == LOW:
      names.append('low_confidence')
    last_confidence = confidence
    output_parts.append(f'<span class="{" ".join(names)}">{html.escape(content)}</span>')
  output_parts.append('</span>')
  return ''.join(output_parts)


def extract_edit_summary_metrics(path: list[gd.Edge], prototype: psn.PackedSequenceNodeStorage, target: psn.PackedSequenceNodeStorage):
  result = collections.defaultdict(lambda: 0)
  for edge in path:
    if edge.info is not None:
      content = text_of(edge.info, prototype, target)
      action = edge.info.edit_action.name
      confidence = edge.info.confidence.name
      result[f'{action}_{confidence}_cost'] += edge.cost
      result[f'{action}_{confidence}_chars'] += len(content)
      result[f'{action}_{confidence}_edges'] += 1
  return dict(result)

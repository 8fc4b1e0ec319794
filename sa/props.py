"""Property -> obligations."""
from .obl import Ob
from .rules import Distinct, GuardedLookups, Holds, Pattern, TokenRules
from spec.tokens import RULES

P = 'r_u_sure.'
TR = P + 'tree_structure.transforms'
HE = P + 'tree_structure.sequence_node_helpers'
SN = P + 'tree_structure.sequence_nodes'
ST = P + 'parsing.subtokenizer'
FP = P + 'parsing.sequence_from_pseudo_parse'

EXPLANATION = (
    'Static analysis: each anchored function of /repo is interpreted abstractly over its syntax tree into a gated '
    'value-numbering summary (branches as gates, loops as one generic iteration with inferred carried state, heap effects as cell '
    'contents), and compared case by case with the summary of a reference stating the contract; a violation is a case '
    'whose results or effects provably differ. Undecided comparisons are counted under undecided and never reported.')
ASSUMPTIONS = [
    'arguments have the types their annotations state',
    'assert statements are preconditions',
    'functions outside the repository behave as documented',
]


def same(mod, spec, names, **kw):
  return [Ob('%s:%s' % (mod, n), 'spec.%s:%s' % (spec, n.replace('.', '__')), **kw) for n in names]


INSERT = same(TR, 'transforms', [
    'insert_early_exit', 'insert_region_options_around_subsequences', 'insert_region_options_around_single_nodes'])
FLATTEN = same(TR, 'transforms', ['flatten_groups', 'flatten_singleton_groups', 'flatten_singleton_groups_for_node'])
STRIP = same(TR, 'transforms', ['strip_decision_nodes'])
TRUNC = same(TR, 'transforms', ['truncate_prefix_at_offset'])
WALK = same(HE, 'helpers', ['compute_depth', 'render_text_contents', 'walk_with_paths'])
DEBUG = same(HE, 'helpers', ['render_debug', '_summarize_contents', '_render_debug_helper'], opaque=[HE + ':_render_debug_helper'])
NODES = same(SN, 'nodes', ['NestedNodePath.extended_with', 'NestedNodePath.root', 'TextDecorationNode.size_for_utility',
                           'TextTokenNode.size_for_utility', 'GroupNode.size_for_utility'])
SUBTOK = same(ST, 'subtok', ['code_to_tokens_simple_lossless'])
FROMPARSE = same(FP, 'fromparse', ['pseudo_parse_node_to_nested_sequence_node', 'subtokenize_token'])
SP = P + 'parsing.pseudo_parser.stack_parser'
SPO = [SP + ':' + n for n in (
    'stack_based_bracket_match', 'split_parse', 'valid_parse_ranges', 'error_correcting_prefix_and_suffix',
    'python_indent_dedent_desugar', 'RegexCodec.encode', 'RegexCodec.preset', 'RegexCodec.add_token', 'RegexCodec.decode_token',
    'RegexCodec.decode_type', 'PseudoParser.__init__', 'PseudoParser.pseudo_parse', 'PseudoParser.preset')]


def part(mod, spec, name, *parts, **kw):
  """One piece of a function: an int is a top-level loop, ('step', k) that loop without the code around it,
  'flow' the code around the loops, else a nested function."""
  ps = [('loop', p) if isinstance(p, int) else ('flow',) if p == 'flow' else p if isinstance(p, tuple) else ('inner', p) for p in parts]
  return Ob('%s:%s' % (mod, name), 'spec.%s:%s' % (spec, name.replace('.', '__')), part=ps,
            what='%s of %s' % (' / '.join('loop %d' % p if isinstance(p, int) else '%s %d' % p if isinstance(p, tuple) else p for p in parts), name), **kw)


CODEC = same(SP, 'stack', ['RegexCodec.__init__', 'RegexCodec.add_token', 'RegexCodec.encode', 'RegexCodec.decode_token',
                           'RegexCodec.decode_type', 'RegexCodec.__len__'])
LEX = [TokenRules(SP + ':RegexCodec.preset', sorted(RULES), RULES)]
NODE = same(SP, 'stack', ['Node.type', 'Node.text', 'Node.__len__', 'Node.__repr__', 'Node.copy', 'Node.depth_first_traversal',
                          'valid_parse_ranges'])
BRACKET = [part(SP, 'stack', 'stack_based_bracket_match', 'flow'), part(SP, 'stack', 'stack_based_bracket_match', 0), part(SP, 'stack', 'error_correcting_prefix_and_suffix', 0),
           part(SP, 'stack', 'error_correcting_prefix_and_suffix', 'flow')] + same(SP, 'stack', ['error_correcting_prefix_and_suffix', '_unzip_pairs'])
SPLIT = [part(SP, 'stack', 'split_parse', 'flow', inner=('_split', '_sub_match', '_sub_match_transplant')),
         part(SP, 'stack', 'split_parse', '_split', 'flow'), part(SP, 'stack', 'split_parse', '_split', 0), part(SP, 'stack', 'split_parse', '_sub_match'),
         part(SP, 'stack', 'split_parse', '_sub_match_transplant')]
DESUGAR = same(SP, 'stack', ['python_indent_dedent_desugar']) + [
    part(SP, 'stack', 'python_indent_dedent_desugar', 'flow', inner=('_line_indent', '_top_level_line_slices')),
    part(SP, 'stack', 'python_indent_dedent_desugar', 0, inner=('_line_indent', '_top_level_line_slices')), part(SP, 'stack', 'python_indent_dedent_desugar', '_line_indent'),
    part(SP, 'stack', 'python_indent_dedent_desugar', '_top_level_line_slices'),
    part(SP, 'stack', 'python_indent_dedent_desugar', '_top_level_line_slices', 0),
    part(SP, 'stack', 'python_indent_dedent_desugar', '_top_level_line_slices', 'flow')]
PSEUDO = same(SP, 'stack', ['PseudoParser.__init__', 'PseudoParser.pseudo_parse', 'PseudoParser.preset',
                            'PseudoParser.parse_and_maybe_preprocess'], opaque=SPO)

UT = P + 'parsing.pseudo_parser.utilities'
UTO = SPO + [SP + ':' + n for n in ('PseudoParser.parse_and_maybe_preprocess', 'Node.copy', 'Node.depth_first_traversal')] + [
    UT + ':' + n for n in ('infer_python_spaces_per_indent', 'infer_match_pair_truncation_index', 'infer_split_truncation_index')]
DOCIN = ('node_code_fragment', 'range_code', 'leading_indents')
FDOC = 'find_python_function_docstrings'
MPAIR = 'infer_match_pair_truncation_index'
UTIL = same(UT, 'utilities', ['infer_python_spaces_per_indent', 'infer_truncation_with_fallbacks',
                              'infer_truncation_pydocstring', FDOC], opaque=UTO) + [
    part(UT, 'utilities', FDOC, 0, inner=DOCIN, opaque=UTO), part(UT, 'utilities', FDOC, 'flow', inner=DOCIN, opaque=UTO)] + [
    part(UT, 'utilities', FDOC, n, opaque=UTO) for n in DOCIN] + [
    part(UT, 'utilities', MPAIR, 0, inner=('_traverse',), opaque=UTO), part(UT, 'utilities', MPAIR, 'flow', inner=('_traverse',), opaque=UTO),
    part(UT, 'utilities', MPAIR, '_traverse', opaque=UTO),
    part(UT, 'utilities', 'infer_split_truncation_index', 0, opaque=UTO),
    part(UT, 'utilities', 'infer_split_truncation_index', 'flow', opaque=UTO)]

RE = P + 'rendering.rendering'
SV = P + 'rendering.svg_renderer'
GEOM = same(RE, 'svg', ['Point.shift', 'BoundingBox.from_boundary', 'BoundingBox.right', 'BoundingBox.bottom', 'BoundingBox.horizontal_center',
                        'BoundingBox.vertical_center', 'BoundingBox.center_point', 'BoundingBox.point_within', 'BoundingBox.union',
                        'point_interpolator'])
SVG = same(SV, 'svg', ['SVGRenderer.' + n for n in (
    '__init__', '_update_bounds', '_render_hover_title', 'label_in_box', 'label_at_point', 'container', 'line', 'dot', 'group',
    'configure_style_css', 'add_custom_svg', 'to_html')], options={'markup': True})

TP = P + 'tree_structure.token_prob_align'
PROBS = same(TP, 'probs', ['SpanProbHelper.build', 'SpanProbHelper.advance_and_get_log_prob_for', 'SpanProbHelper.assert_consumed',
                           'align_token_log_probs', 'flatten_token_log_probs_from_parsed', 'render_tokens_and_log_probs_to_html'],
             opaque=[TP + ':SpanProbHelper.advance_by_length']) + [
    part(TP, 'probs', 'SpanProbHelper.advance_by_length', 0), part(TP, 'probs', 'SpanProbHelper.advance_by_length', 'flow')]

RD = P + 'edit_distance_utility.region_decisions'
RDO = [RD + ':extract_sequence_with_regions']
REGIONS = same(RD, 'regions', ['DecisionCategory.shortname', 'DecisionValue.shortname', 'DecisionKey.summarize_assignment']) + [
    part(RD, 'regions', 'extract_sequence_with_regions', 0), part(RD, 'regions', 'extract_sequence_with_regions', 'flow'),
    part(RD, 'regions', 'render_regions_to_html', 0, opaque=RDO), part(RD, 'regions', 'render_regions_to_html', 'flow', opaque=RDO)]

PK = P + 'tree_structure.packed_sequence_nodes'
PKO = [PK + ':PackedSequenceNodeStorage.subsequence_from_node_path', PK + ':render_text_contents_of_list', PK + ':render_text_contents_of_node']
MKIO = '_make_recursive_in_order_traversal'
PACK = same(PK, 'packed', ['PackedSequenceNodeStorage.node_id_from_node_path', 'render_text_contents_of_node',
                           'render_text_contents_of_list', 'unpack', 'in_order_traversal'], opaque=PKO) + [
    part(PK, 'packed', 'PackedSequenceNodeStorage.subsequence_from_node_path', p) for p in (0, 'flow')] + [
    part(PK, 'packed', 'PackedSequenceNodeStorage.path_from_preorder_index', p) for p in (0, 'flow')] + [
    part(PK, 'packed', 'pack', 'preorder_traversal', free=('result', 'max_level')),
    part(PK, 'packed', 'pack', 0, inner=('preorder_traversal',), free=('result', 'max_level')),
    part(PK, 'packed', 'pack', 'flow', inner=('preorder_traversal',), free=('result', 'max_level')), part(PK, 'packed', 'unpack', 'build'),
    part(PK, 'packed', MKIO, 'do_in_order_traversal'), part(PK, 'packed', '_in_order_traversal_numba_overload', '_impl')] + same(PK, 'packed', [MKIO])

UW = P + 'wrappers.uncertainty_regions_wrapper'
PW = P + 'wrappers.prefix_truncation_wrapper'
EW = P + 'wrappers.edit_distance_wrapper_base'
CS = P + 'decision_diagrams.consistent_path_dual_solver'
UB = 'UncertaintyRegionsBaselineBuilder'
PB = 'PrefixByEditDistanceBaselineBuilder'
UBN = ['baseline_assignment_from_' + x for x in ('token_probabilities', 'character_offset', 'example_fraction', 'depth_cutoff')]
PBN = ['_assignment_from_exit_point'] + ['baseline_assignment_from_' + x for x in (
    'token_prob', 'max_average_log_prob', 'intellicode_compose', 'characters', 'lines')]
WO = [UW + ':%s.%s' % (UB, n) for n in UBN + ['_assignment_from_low_confidence_nodes', '__init__']] + [
    PW + ':%s.%s' % (PB, n) for n in PBN + ['__init__']] + [
    EW + ':EditDistanceWrapperBase.' + n for n in ('__init__', '_process_prototype_and_context_maybe_exit', 'build_system')] + [
    CS + ':' + n for n in ('clone_system', 'constrain_system', 'solve_system_with_sweeps', 'greedy_extract',
                           'assignments_from_assignment_vector', 'make_system')] + [
    TP + ':align_token_log_probs', PK + ':in_order_traversal', UW + ':derive_uncertainty_region_costs', UW + ':UncertaintyRegionsWrapper.__init__']
COSTS = same(UW, 'wrappers', ['derive_uncertainty_region_costs'])
WINIT = same(UW, 'wrappers', ['UncertaintyRegionsWrapper.' + n for n in ('__init__', 'process_prototype_and_context')], opaque=WO) + same(
    PW, 'wrappers', ['PrefixByEditDistanceWrapper.' + n for n in ('__init__', 'process_prototype_and_context')], opaque=WO)
BASELINES = same(UW, 'wrappers', [UB + '.__init__', UB + '._assignment_from_low_confidence_nodes'], opaque=WO) + [
    part(UW, 'wrappers', UB + '.' + n, p, opaque=WO) for n in UBN for p in (0, 'flow')] + same(PW, 'wrappers', [PB + '.__init__'], opaque=WO) + [
    part(PW, 'wrappers', PB + '.' + n, p, opaque=WO) for n in PBN for p in (0, 'flow')] + [
    part(UW, 'wrappers', 'UncertaintyRegionsWrapper.build_baseline_assignments', p, opaque=WO) for p in (0, 1, 2, 'flow')] + [
    part(PW, 'wrappers', 'PrefixByEditDistanceWrapper.build_baseline_assignments', p, opaque=WO) for p in (0, 1, 2, 3, 'flow')]

PT = P + 'wrappers.parser_tools'
WB = P + 'wrappers.wrapper_base'
ED = P + 'edit_distance_utility.edit_dags'
CD = P + 'edit_distance_utility.constraint_dags'
GD = P + 'decision_diagrams.gated_state_dag'
PD = P + 'decision_diagrams.packed_dags'
EB = 'EditDistanceWrapperBase.'
SO = [PK + ':pack', RD + ':extract_sequence_with_regions', RD + ':render_regions_to_html', PD + ':scale_packed_dag_costs',
      PD + ':constrained_best_path', WB + ':compute_sample_system_info', PT + ':pack_sequence_from_pseudoparser'] + [
    ED + ':' + n for n in ('make_specialized_dag_packer', 'make_edit_dag_builder', 'pack_dag', 'extract_edit_summary_metrics',
                           'extract_edit_sequence_html')] + [
    CD + ':' + n for n in ('make_specialized_dag_packer', 'make_constraint_dag_builder', 'pack_dag')] + [
    GD + ':' + n for n in ('prune_to_reachable', 'prune_unreachable_and_rewrite_states', 'prune_to_reachable_jit')] + [
    CS + ':make_system'] + [P + 'tree_structure.transforms:' + n for n in (
        'insert_region_options_around_subsequences', 'insert_early_exit', 'truncate_prefix_at_offset', 'flatten_groups')] + [
    P + 'tree_structure.sequence_node_helpers:render_text_contents', P + 'parsing.sequence_from_pseudo_parse:subtokenize_token',
    P + 'parsing.sequence_from_pseudo_parse:pseudo_parse_node_to_nested_sequence_node',
    P + 'parsing.pseudo_parser.utilities:infer_python_spaces_per_indent',
    P + 'parsing.pseudo_parser.stack_parser:PseudoParser.parse_and_maybe_preprocess']
PARSER = same(PT, 'systems', ['pack_sequence_from_pseudoparser', 'allow_regions_around_pseudoparse_node', 'ParserHelper.__init__',
                              'ParserHelper.parse_to_nodes'], opaque=SO)
SYSTEMS = same(EW, 'systems', [EB + n for n in ('__init__', '_process_prototype_and_context_maybe_exit', 'process_target',
                                                'render_solution_html')], opaque=SO) + [
    part(EW, 'systems', EB + n, p, opaque=SO) for n in ('build_system', 'solution_info', 'render_pairwise_matching_html') for p in (0, 'flow')] + [
    part(WB, 'systems', 'compute_sample_system_info', p, opaque=SO) for p in (0, 'flow')]

AC = P + 'wrappers.call_sequence_wrapper'
PS = P + 'edit_distance_utility.part_selection_dags'
AW = 'ApiCallSequenceWrapper.'
AO = SO + [AC + ':extract_context_tokens', P + 'tree_structure.sequence_node_helpers:walk_with_paths',
           P + 'tree_structure.transforms:strip_decision_nodes'] + [
    AC + ':' + AW + n for n in ('_extract_all_from', '_make_callseq_tree', '_is_paren')] + [
    PS + ':' + n for n in ('make_specialized_dag_packer', 'make_selection_dag_builder', 'pack_dag', 'extract_match_groups')]
CALLS = same(AC, 'calls', ['extract_context_tokens'] + [AW + n for n in (
    '_is_paren', '__init__', 'process_prototype_and_context', 'process_target', 'render_solution_html', '_make_callseq_tree')], opaque=AO) + [
    part(AC, 'calls', AW + '_extract_all_from', p, opaque=AO) for p in (0, 1, 'flow')] + [
    part(AC, 'calls', AW + n, p, opaque=AO) for n in ('build_system', 'solution_info', 'render_pairwise_matching_html') for p in (0, 'flow')] + [
    part(AC, 'calls', AW + 'build_baseline_assignments', *p, opaque=AO, inner=i) for p, i in (
        ((0,), ()), (('flow',), ('_make_suggestion',)), (('_make_suggestion', 0), ()), (('_make_suggestion', 'flow'), ()))]

LK = ('lookup_id_for_state', 'lookup_or_create_id_for_state')
LKF = ('state_lookup_table', 'scratch_space_size', 'states_by_index', 'fallback_lookup_table')
PRW = 'prune_unreachable_and_rewrite_states'
GATED = same(GD, 'gated', ['extract_state_list', 'prune_to_reachable', 'prune_to_reachable_jit',
                           'partial_state_dag_starting_from', 'partial_state_dag_add_edge', 'partial_state_dag_finish',
                           'strip_traceback_from_edge'], opaque=[GD + ':compute_reachable_states', GD + ':prune_to_reachable']) + [
    part(GD, 'gated', '_prune_to_reachable_overload', 'impl', p) for p in (('step', 0), ('step', 1), ('step', 2), ('step', 3), 'flow')] + [
    part(GD, 'gated', 'compute_reachable_states', p) for p in (('step', 0), ('step', 1), 'flow')] + same(
        GD, 'gated', ['_prune_to_reachable_overload', '_partial_state_dag_add_edge_overload']) + [
    part(GD, 'gated', '_partial_state_dag_add_edge_overload', 'impl#0'), part(GD, 'gated', '_partial_state_dag_add_edge_overload', 'impl#1'),
    GuardedLookups(GD + ':partial_state_dag_add_edge'), GuardedLookups(GD + ':_partial_state_dag_add_edge_overload')] + [
    part(GD, 'gated', PRW, n, free=LKF) for n in LK] + [
    part(GD, 'gated', PRW, p, inner=LK, free=LKF) for p in (('step', 0), ('step', 1), ('step', 2), 'flow')]

MKC = 'make_specialized_fn__convert_dag_to_packed'
PDO = [PD + ':' + n for n in ('empty_table', 'empty_unpenalized_table', 'update_prefixes_up_to', 'update_suffixes_up_to', 'set_penalties',
                              'make_fully_valid', 'compute_min_marginals_for_variable', 'extract_minimal_cost_path_and_assignments',
                              'edge_group_boundary_before_assigning', 'edge_group_boundary_after_assigning',
                              'state_tag_start_boundary', 'state_tag_end_boundary')]
PATHS = same(PD, 'paths', [
    'edge_group_boundary_before_assigning', 'edge_group_boundary_after_assigning', 'state_tag_start_boundary', 'state_tag_end_boundary',
    'scale_packed_dag_costs', 'empty_table', 'empty_unpenalized_table', 'copy_memo', 'masked_prefixes', 'masked_suffixes',
    'set_penalties', 'make_fully_valid', 'compute_minimal_cost'], opaque=PDO) + [
    part(PD, 'paths', n, p, opaque=PDO) for n in ('update_prefixes_up_to', 'update_suffixes_up_to', 'compute_min_marginals_for_variable',
                                                  'compute_all_min_marginals', 'extract_minimal_cost_path_and_assignments',
                                                  'constrained_best_path') for p in (0, 'flow')]
CONVERT = [part(PD, 'paths', MKC, 'prepare_input_dag', inner=('convert_dag_to_packed',))] + [
    part(PD, 'paths', MKC, 'convert_dag_to_packed', p) for p in [('step', i) for i in range(16) if i != 13] + ['flow']] + [
    part(PD, 'paths', MKC, 'convert_dag_to_packed', ('step', 13), p) for p in (('step', 0), 'flow')]

DS = P + 'decision_diagrams.consistent_path_dual_solver'
DSO = [DS + ':' + n for n in ('_numba_extract_keys', '_numba_populate_variable_index_map', 'clone_system_data', '_clone_memos',
                              'system_min_marginals', 'min_marginal_average')] + [
    PD + ':' + n for n in ('empty_unpenalized_table', 'copy_memo', 'compute_minimal_cost', 'compute_min_marginals_for_variable', 'set_penalties')]
DSR = [DS + ':system_min_marginals'] + [PD + ':' + n for n in ('compute_minimal_cost', 'compute_min_marginals_for_variable')]
DSX = dict(opaque=DSO, options={'logged': frozenset(DSR + [PD + ':set_penalties', DS + ':min_marginal_average']), 'readers': frozenset(DSR), 'quiet': True, 'unset': ('timed_out', 'reached_plateau')})
DUAL = same(DS, 'dual', ['_numba_extract_keys', '_numba_populate_variable_index_map', 'clone_system', 'clone_system_data', '_clone_memos',
                         'assignments_from_assignment_vector'], **DSX) + [
    part(DS, 'dual', n, *(p if isinstance(p, list) else [p]), **DSX) for n, ps in (
        ('make_system', [('step', 0), 'flow']), ('system_min_marginals', [0, 'flow']), ('min_marginal_average', [0, 1, 'flow']),
        ('solve_system_with_sweeps', [[('step', 0), ('step', 0), ('step', 0)], [('step', 0), ('step', 0), 'flow'], [('step', 0), 'flow'], 'flow']),
        ('greedy_extract', [[('step', 0), ('step', 0)], [('step', 0), 'flow'], 'flow']),
        ('partially_commit', [('step', 0), [('step', 1), ('step', 0)], [('step', 1), 'flow'], 'flow']),
        ('constrain_system', [[('step', 0), ('step', 0)], [('step', 0), ('step', 1)], [('step', 0), 'flow'], 'flow']),
        ('break_symmetry_randomly', [[('step', 0), ('step', 0)], [('step', 0), ('step', 1)], [('step', 0), 'flow'], 'flow'])) for p in ps]

CB = ('build_prototype_subgraph_from_outside_region', 'build_prototype_subgraph_inside_region')
EDGES = dict(unordered=('ev',), emitters={GD + ':partial_state_dag_add_edge': 0}, opaque=[GD + ':partial_state_dag_starting_from', GD + ':partial_state_dag_finish', PD + ':convert_dag_to_packed'])
CDAG = same(CD, 'constraint', ['ConstraintDagStateCategory.shortname', 'node_in_annotated_region_value', 'pack_dag'], **EDGES) + [
    part(CD, 'constraint', 'make_constraint_dag_builder', n, inner=CB, **EDGES) for n in ('construct_constraint_dag',)] + [
    part(CD, 'constraint', 'make_constraint_dag_builder', n, ('step', 0), inner=CB, **EDGES) for n in CB]

SB = ('_construct_jitted',)
EDGEA = dict(EDGES, opaque=EDGES['opaque'] + [PK + ':in_order_traversal'], options={'assumed': True})
SDAG = same(PS, 'selection', ['DagStateCategory.shortname', 'pack_dag'], **EDGES) + [
    part(PS, 'selection', 'make_selection_dag_builder', 'construct_selection_dag', inner=SB, **EDGES)] + [
    part(PS, 'selection', 'make_selection_dag_builder', SB[0], *p, inner=SB, **EDGEA) for p in (
        [('step', 0), ('step', 0)], [('step', 0), 'flow'], [('step', 1)], ['flow'])] + [
    part(PS, 'selection', 'extract_match_groups', *p) for p in ([('step', 0), ('step', 0)], [('step', 0), 'flow'], ['flow'])]

EI = ('maybe_insert_node_or_skip_decoration_in_target', 'maybe_delete_node_or_advance_in_prototype', 'build_matching_subproblem',
      'build_recursive_delete_subsequence', 'build_recursive_insert_subsequence')
EDGEE = dict(EDGES, opaque=EDGES['opaque'] + [ED + ':token_node_utility_from_parameters', ED + ':_group_edit_sequence', PK + ':render_text_contents_of_node'], options={'assumed': True, 'unstyled': True})
MKE = 'make_edit_dag_builder'
EDAG = same(ED, 'edits', ['EditDagStateAlignment.shortname', 'EditDagStateConfidence.shortname', 'token_node_utility_from_parameters',
                          'node_in_low_confidence_value', 'pack_dag'], **EDGEE) + [
    part(ED, 'edits', MKE, 'construct_edit_dag', inner=EI, **EDGEE)] + [
    part(ED, 'edits', MKE, n, inner=EI, **EDGEE) for n in EI[:2]] + [
    part(ED, 'edits', MKE, EI[2], *p, inner=EI, **EDGEE) for p in ([('step', 0), ('step', 0)], [('step', 0), 'flow'], ['flow'])] + [
    part(ED, 'edits', MKE, n, ('step', 0), inner=EI, **EDGEE) for n in EI[3:]]
EDITS = [part(ED, 'edits', n, p, **EDGEE) for n in ('_group_edit_sequence', 'extract_edit_sequence_text', 'extract_edit_sequence_html', 'extract_edit_summary_metrics') for p in (('step', 0), 'flow')]

DM = P + 'wrappers.demo_runner'
DMO = [CS + ':' + n for n in ('solve_system_with_sweeps', 'greedy_extract', 'assignments_from_assignment_vector')] + [
    P + 'wrappers.parser_tools:' + n for n in ('ParserHelper.parse_to_nodes', 'pack_sequence_from_pseudoparser')] + [
    TR + ':truncate_prefix_at_offset'] + [P + 'tree_structure.token_prob_align:' + n for n in (
        'flatten_token_log_probs_from_parsed', 'align_token_log_probs', 'render_tokens_and_log_probs_to_html')] + [
    P + 'wrappers.wrapper_base:HighLevelUtilityWrapper.' + n for n in (
        'process_prototype_and_context', 'process_target', 'build_system', 'solution_info', 'render_solution_html',
        'render_pairwise_matching_html', 'build_baseline_assignments')]
DEMO = same(DM, 'demo', ['DemoRunner.__init__', 'DemoRunner.combine', 'DemoRunner.build_baselines', 'DemoRunner.show_suggestion',
                         'DemoRunner.get_extracted_parts', 'DemoRunner.show_edits', 'DemoRunner.show_utilities', 'DemoRunner.show_token_probs'],
            opaque=DMO)

PACKERS = {m: [Ob('%s:make_specialized_dag_packer' % mod, 'spec.packers:' + m, opaque=[PD + ':make_specialized_fn__convert_dag_to_packed'])]
           for m, mod in (('edits', ED), ('constraint', CD), ('selection', PS))}

WS = [Pattern(SP + ':ALL_WHITE_SPACE_REGEX', r'^(\s+)$'), Pattern(SP + ':LEADING_WHITE_SPACE_REGEX', r'(\s*)')]


def enums(mod, *names):
  return [Distinct('%s:%s' % (mod, n)) for n in names]


PROPS = {
    'P27': {'obligations': DEMO},
    'P25': {'obligations': EDAG + PACKERS['edits'] + [Holds(ED + ':FINAL_STATE', 'spec.consts:edit_final', 'the final state is set apart')] + enums(ED, 'EditDagStateAlignment', 'EditDagStateConfidence')},
    'P26': {'obligations': EDITS + enums(ED, 'EditAction')},
    'P24': {'obligations': SDAG + PACKERS['selection'] + [Holds(PS + ':FINAL_STATE', 'spec.consts:selection_final', 'the final state is set apart')] + enums(PS, 'DagStateCategory')},
    'P23': {'obligations': CDAG + PACKERS['constraint'] + [Holds(CD + ':FINAL_STATE', 'spec.consts:constraint_final', 'the final state is set apart')] + enums(CD, 'ConstraintDagStateCategory')},
    'P22': {'obligations': DUAL + enums(DS, 'SweepDirection', 'PartialCommitmentStatus')},
    'P20': {'obligations': CONVERT},
    'P21': {'obligations': PATHS},
    'P19': {'obligations': GATED},
    'P18': {'obligations': CALLS},
    'P17': {'obligations': PARSER + SYSTEMS},
    'P15': {'obligations': COSTS + WINIT},
    'P16': {'obligations': BASELINES},
    'P14': {'obligations': PACK + [Holds(PK + ':ROOT_SEQUENCE_PREORDER_INDEX', 'spec.consts:preorder_markers', 'markers are no index and differ')]},
    'P13': {'obligations': REGIONS + enums(RD, 'DecisionCategory')},
    'P12': {'obligations': PROBS},
    'P11': {'obligations': GEOM + SVG},
    'P01': {'obligations': INSERT + STRIP},
    'P02': {'obligations': TRUNC},
    'P03': {'obligations': FLATTEN},
    'P04': {'obligations': WALK + DEBUG + NODES},
    'P05': {'obligations': SUBTOK + FROMPARSE[1:] + enums(ST, 'StateType')},
    'P06': {'obligations': FROMPARSE + SUBTOK},
    'P07': {'obligations': CODEC + LEX + PSEUDO[1:3]},
    'P08': {'obligations': NODE + BRACKET + SPLIT + PSEUDO + WS[:1] + enums(SP, 'NodeType', 'TokenType')},
    'P10': {'obligations': UTIL},
    'P09': {'obligations': DESUGAR + PSEUDO + WS},
}

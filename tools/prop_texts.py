TRF = 'tree_structure/transforms.py'
prop('P01', 'Inserting decision points never alters the code, and stripping undoes it',
     'Adding early-exit points or region options to a token tree only adds decision points (and, for the single-node variant, one region-scope group around each token or group): every token, decoration and group keeps its contents, type, order and nesting. '
     'The points are placed exactly where documented: an early exit at the start only if allowed and after every token and every group (inside groups only if allowed), region options around exactly the nodes the filter accepts at every level, empty-region options only if requested. '
     'Removing decision points from any tree yields the tree without them, at every nesting level, and the input tree is never modified.',
     ['inputs', 'configurations'], 'every token tree, every combination of the option flags and every node filter',
     'The tests run a handful of fixed trees with a few flag combinations; nesting depth, mixtures of node kinds and filters are unbounded.',
     [TRF], [('insert_early_exit', TRF), ('insert_region_options_around_subsequences', TRF),
             ('insert_region_options_around_single_nodes', TRF), ('strip_decision_nodes', TRF)])
prop('P02', 'Truncating a context prefix removes exactly that many characters',
     'Removing the first N characters of a token tree leaves exactly the remaining text: tokens and decorations wholly before the cut disappear, the one straddling it keeps only its tail, and everything after it is kept unchanged with its types. '
     'A group that the cut falls into (or exactly at the end of) keeps its type and its remaining children, a group wholly before it disappears, and decision points located before the cut are dropped while those after it are kept. '
     'The input tree is not modified.',
     ['inputs'], 'every token tree and every offset',
     'Tests use a few trees and offsets; the boundary cases (cut at a token boundary, inside nested groups, empty tokens) are combinations of both.',
     [TRF], [('truncate_prefix_at_offset', TRF)])
prop('P03', 'Flattening groups preserves tokens, order and type information',
     'Fully flattening a token tree returns exactly its non-group nodes, in document order, at any nesting depth. '
     'Collapsing singleton groups merges a group only when its sole child is a group or a token, and records the types of all merged nodes outermost first, so that the original structure can be reconstructed; every other group keeps its processed children in order and nodes that are neither groups nor tokens are unchanged. '
     'The input is never modified.',
     ['inputs'], 'every token tree',
     'Tests flatten a few fixed trees; depth and the mix of singleton and non-singleton levels are unbounded.',
     [TRF], [('flatten_groups', TRF), ('flatten_singleton_groups', TRF), ('flatten_singleton_groups_for_node', TRF)])
HEF = 'tree_structure/sequence_node_helpers.py'
SNF = 'tree_structure/sequence_nodes.py'
prop('P04', 'Walking, measuring and rendering a token tree agree with its contents',
     'Rendering the text of a tree concatenates the text of all tokens and decorations in document order and nothing else. '
     'Walking a tree yields every leaf once, in order, with the path of child indices that leads to it, plus each group before and/or after its children exactly as requested; the depth is one plus the deepest group nesting, and the size a node contributes to utility is its own text length, zero for groups. '
     'The debug rendering shows every node of the tree, in order, nested according to its groups.',
     ['inputs'], 'every token tree',
     'Tests check single trees; the relation between paths and nodes has to hold for every nesting and every mixture of node kinds.',
     [HEF, SNF], [('walk_with_paths', HEF), ('render_text_contents', HEF), ('compute_depth', HEF), ('render_debug', HEF),
                  ('size_for_utility', SNF), ('NestedNodePath.extended_with', SNF)])
STF = 'parsing/subtokenizer.py'
FPF = 'parsing/sequence_from_pseudo_parse.py'
prop('P05', 'Subtokenization is lossless and splits exactly at the documented boundaries',
     'Splitting any string into subtokens and concatenating them gives back the same string, and no subtoken is empty. '
     'Splits happen at changes between upper case, lower case, digits and other characters (with the last capital of a capital run joining a following lower-case run) and around whitespace, except that runs of one repeated space or tab character stay together up to twenty characters.',
     ['inputs'], 'every string, of any length and in any script',
     'There is no test of the subtokenizer alone; its state machine has to be right for every character sequence.',
     [STF, FPF], [('code_to_tokens_simple_lossless', STF), ('subtokenize_token', FPF)])
prop('P06', 'Converting a parse to a token tree keeps all text, structure and types',
     'Converting a parse tree to a token tree keeps the text of every leaf in order: nodes of decoration types become decorations, nodes of subtokenized types become groups of subtokens that concatenate to the same text, other leaves become one token and other inner nodes become one group holding all converted children in order, each carrying the name of its node type. '
     'A parse node whose children do not tile exactly its own token range is rejected instead of silently losing text.',
     ['inputs', 'configurations'], 'every parse tree and every choice of decoration and subtokenized types',
     'Tests convert two small programs with the default type sets; arbitrary trees and type sets are not reached.',
     [FPF, STF], [('pseudo_parse_node_to_nested_sequence_node', FPF), ('subtokenize_token', FPF), ('code_to_tokens_simple_lossless', STF)])
SPF = 'parsing/pseudo_parser/stack_parser.py'
prop('P07', 'Tokenizing source code is lossless, total and consistently typed',
     'For every supported language and every text, tokenizing yields tokens whose concatenation is exactly the text, each token typed by the first rule of the language that matches at its position, with a catch-all so no character is ever skipped. '
     'Token ids round-trip: decoding an id gives back the text and type it was created for, ids of different texts differ, and the same text always gets the same id as more text is encoded.',
     ['inputs', 'histories'], 'every text, language and history of encode calls on one codec',
     'Tests tokenize a few snippets; character sequences, rule interactions and codec histories are unbounded.',
     [SPF], [('RegexCodec', SPF), ('PseudoParser.pseudo_parse', SPF)])
prop('P08', 'The parse tree covers every token exactly once with correctly paired brackets',
     'For any token sequence, balanced or not, the parse tree has one leaf per token in order, every inner node spans exactly its children, and each bracket group is delimited by an opener and its own matching closer. '
     'Unmatched brackets at the outermost level are repaired by exactly the missing openers in front and closers behind, shown as empty raw text; other mismatched closers become ordinary leaves when errors are tolerated and raise a parse error otherwise. '
     'Splitting the parse at separator tokens, and nesting an indented block under the line before it, regroups siblings without losing, duplicating or reordering tokens.',
     ['inputs'], 'every token sequence and every set of bracket pairs, correctable or not',
     'Tests parse about ten snippets; nesting and mismatch patterns of brackets are unbounded.',
     [SPF], [('stack_based_bracket_match', SPF), ('error_correcting_prefix_and_suffix', SPF), ('split_parse', SPF), ('Node', SPF),
             ('PseudoParser.pseudo_parse', SPF)])
prop('P09', 'Python block structure follows indentation without altering the code',
     'For any Python text the parser nests lines according to their indentation: a line deeper than the previous one opens one block per extra level and a shallower one closes one block per level before its preceding line break, blank lines and line breaks inside brackets never do, and every block opened is closed by the end. '
     'The inserted block markers and error-correcting brackets carry no raw text and the final line break added for parsing is taken out of the raw text again, so the concatenated raw text of the parse is exactly the original code.',
     ['inputs'], 'every Python text, with any mixture of indentation widths, continuation lines, comments and blank lines',
     'Tests parse a few well-formed snippets; the indentation stack has to be right for every sequence of line depths.',
     [SPF], [('python_indent_dedent_desugar', SPF), ('PseudoParser.parse_and_maybe_preprocess', SPF)])
UTF = 'parsing/pseudo_parser/utilities.py'
prop('P10', 'Truncation heuristics cut code exactly where the parse says',
     'The bracket heuristic returns the text position just after the closer of the innermost requested bracket pair (or indented block) that surrounds the cursor, and none if no such pair surrounds it; the split heuristic returns the position just after the first statement separator that ends a statement behind the cursor, or the end of the text. '
     'The combined heuristic tries brackets first and statements second with the pair and separator of the language; the docstring cut falls just after the first recurrence of the opening quotes, or is none. '
     'Docstring detection reports, in order, exactly the positions after the opening triple quotes that directly follow a function signature one indent level deeper, and the inferred indent is the last candidate that divides every block indent, or one.',
     ['inputs', 'configurations'], 'every context, completion and language configuration',
     'Tests truncate a few snippets; positions depend on arbitrary bracket nesting around the cursor.',
     [UTF], [('infer_match_pair_truncation_index', UTF), ('infer_split_truncation_index', UTF), ('infer_truncation_with_fallbacks', UTF),
             ('find_python_function_docstrings', UTF), ('infer_truncation_pydocstring', UTF), ('infer_python_spaces_per_indent', UTF)])
REF = 'rendering/rendering.py'
SVF = 'rendering/svg_renderer.py'
prop('P11', 'Drawings escape all text and their bounds enclose everything drawn',
     'Every piece of caller-supplied label or hover text placed in a drawing is HTML-escaped, hover text is emitted only when present and enabled, each drawing call emits balanced markup with its own position, size, path and style tags, and groups contain exactly what was drawn inside them. '
     'The bounds of a drawing are the union of the bounds of every item drawn, and the emitted document contains all styles and all items in order with a view box covering the bounds plus the requested padding. '
     'Box arithmetic is consistent: edges, centres, interior points and unions are those of the stated left, top, width and height.',
     ['inputs', 'histories'], 'every sequence of drawing calls with any text, geometry and style arguments',
     'There is no test of the renderer; text with markup characters and nested groups have to be right for all call sequences.',
     [REF, SVF], [('BoundingBox', REF), ('Point', REF), ('point_interpolator', REF), ('SVGRenderer', SVF)])
TPF = 'tree_structure/token_prob_align.py'
prop('P12', 'Model token probabilities are attributed to exactly the text they produced',
     'Advancing through the model tokens by a number of characters returns exactly the next characters and the sum of the log probabilities of every model token touched, leaving the rest of a partly used token with its probability; text that does not match the model tokens is rejected. '
     'Aligning a token tree gives each parsed token, keyed by its position, the sum for its own text, skips decorations and groups without losing their text, and checks that all model tokens were used when asked. '
     'Flattening and rendering the result keep every token, escaped, in order with its own probability.',
     ['inputs', 'histories'], 'every list of model tokens (of any length, also empty) and every parsed sequence over the same text',
     'The alignment test does not run here and covers a few strings; boundaries of the two tokenizations can interleave arbitrarily.',
     [TPF], [('SpanProbHelper', TPF), ('align_token_log_probs', TPF), ('flatten_token_log_probs_from_parsed', TPF)])
RDF = 'edit_distance_utility/region_decisions.py'
prop('P13', 'Decoded suggestions show every token with the region state that was decided',
     'Reading decisions back yields, in order, every token and decoration of the suggestion up to the first accepted early exit, each marked as inside a region exactly if a region start was accepted before it and not yet ended; a region that ends without containing any text yields one marker, and nothing else is added. '
     'The rendered form contains the same text, escaped, wraps each maximal run of in-region text in one highlighted span and closes every span. '
     'Decision names and values are described unambiguously.',
     ['inputs'], 'every packed suggestion and every assignment of decisions',
     'Only wrapper tests that cannot run here touch this code, with a few fixed solutions.',
     [RDF], [('extract_sequence_with_regions', RDF), ('render_regions_to_html', RDF), ('DecisionCategory', RDF), ('DecisionValue', RDF)])
PKF = 'tree_structure/packed_sequence_nodes.py'
prop('P14', 'Packed trees hold exactly the original tree and all their indices agree',
     'Packing a token tree stores every node once in pre-order with its category, contents and type, group children in order, and for every node its parent, its offset in the parent and its level; the depth is one more than the deepest level. '
     'Unpacking rebuilds the same tree, paths and pre-order positions convert into one another, invalid paths are rejected, and text rendering concatenates the text of all tokens and decorations below a node. '
     'An in-order traversal visits every leaf once and every group right before and right after its children, leaving out exactly the decorations if asked, identically in the interpreted and the compiled variant.',
     ['inputs', 'configurations'], 'every token tree, both storage variants',
     'No test of this module runs here; the bookkeeping of six parallel lists has to agree for every nesting.',
     [PKF], [('pack', PKF), ('unpack', PKF), ('PackedSequenceNodeStorage', PKF), ('in_order_traversal', PKF), ('render_text_contents_of_node', PKF)])
UWF = 'wrappers/uncertainty_regions_wrapper.py'
PWF = 'wrappers/prefix_truncation_wrapper.py'
prop('P15', 'Region costs break even exactly at the requested precision and are passed on',
     'For every precision, edit sensitivity and start-editing cost, the derived costs give equal expected utility inside and outside a region exactly when a token is correct with the requested precision; high-confidence match and delete are one per character, insertions cost nothing per character, and low-confidence edits and starts are scaled by the sensitivity. '
     'The region wrapper builds its utility from exactly these costs and the requested arguments, allows low-confidence regions and forbids early exits; the prefix wrapper does the same with its own arguments, always allows early exits, and allows regions exactly if asked (then without baselines).',
     ['inputs', 'configurations'], 'every setting of the wrapper arguments',
     'The tests of the wrappers do not run here; the break-even identity is algebraic over real parameters.',
     [UWF, PWF], [('derive_uncertainty_region_costs', UWF), ('UncertaintyRegionsWrapper', UWF), ('PrefixByEditDistanceWrapper', PWF)])
prop('P16', 'Baselines mark or cut a suggestion exactly where their rule says',
     'The region baselines put into a region exactly the tokens their rule selects (probability, or running product of probabilities, below the threshold; token ending after the character offset or fraction; depth relative to the first token at or beyond a cutoff), ignoring empty tokens where stated, and let the solver fill in the other decisions under those constraints on a copy of the system. '
     'The prefix baselines exit at the last exit before the first token that fails the rule or else at the next exit (probability, running product, adaptive ratio), at the exit with the best average log probability, or at the first exit after the given number of characters or lines; all earlier exits are declined, all later ones not applicable, and no region starts. '
     'Every configured threshold, fraction, cutoff or limit yields one baseline under its own name.',
     ['inputs', 'configurations'], 'every packed suggestion, model output and baseline setting',
     'The wrapper tests do not run here and use a few suggestions; exit positions and thresholds interact for every tree.',
     [UWF, PWF], [('UncertaintyRegionsBaselineBuilder', UWF), ('PrefixByEditDistanceBaselineBuilder', PWF), ('build_baseline_assignments', UWF)])
PTF = 'wrappers/parser_tools.py'
EWF = 'wrappers/edit_distance_wrapper_base.py'
WBF = 'wrappers/wrapper_base.py'
prop('P17', 'Suggestions become systems and results that account for every sample',
     'Parsing for the wrappers tokenizes or parses the whole text with the inferred indentation, treats white space and non-content as decoration, splits string literals, and flattens only if asked; regions are never offered around bracket parts or bare newlines; the prototype and each target are cut at the prediction location only after decision points were added, and the shown context is exactly the text before it. '
     'A system holds one edit model per target, scaled and weighted by that target (uniformly summing to one by default), followed by one constraint model scaled by the total weight. '
     'Reported costs, ranks, averages and rendered comparisons are taken from the best path of the right model under the given decisions, one per sample, with the context escaped.',
     ['inputs', 'configurations'], 'every text, prediction location, target list, weight list and assignment',
     'The wrapper tests cannot run here and use two or three targets with default weights.',
     [PTF, EWF, WBF], [('ParserHelper', PTF), ('allow_regions_around_pseudoparse_node', PTF), ('EditDistanceWrapperBase', EWF), ('compute_sample_system_info', WBF)])
ACF = 'wrappers/call_sequence_wrapper.py'
prop('P18', 'Extracted API calls, their costs and counts match the code they come from',
     'From every sequence of sibling nodes the first bracket group decides: text followed by a parenthesis group is one call, in order, with tokens marked as seen in the context or novel, dots, opening and closing brackets and arguments marked as such, and places where a selection may start or end exactly at the documented positions; definitions and other brackets are searched inside instead, and later groups always are. '
     'Selecting a token breaks even exactly at the requested precision, with novel identifiers worth ten times the others and punctuation nothing; targets get the same tree without decision points, and the systems, counts, costs and renderings account for every sample as in the other wrappers. '
     'Baselines select each call in full, or from the last white space to the opening bracket, for all calls or only those with a novel token, with every other decision declined or not applicable.',
     ['inputs', 'configurations'], 'every parsed program, prediction location, target list and precision',
     'The wrapper tests cannot run here and use one short program.',
     [ACF], [('ApiCallSequenceWrapper', ACF), ('extract_context_tokens', ACF)])
GDF = 'decision_diagrams/gated_state_dag.py'
PDF = 'decision_diagrams/packed_dags.py'
prop('P19', 'Building and pruning a state graph keeps exactly its complete paths',
     'A graph under construction accepts an edge exactly if its source is known and its destination has not been expanded yet, and otherwise raises ValueError; edges are grouped by source in the order in which sources are first expanded, and the optional tracebacks never change the result once stripped. '
     'Pruning keeps exactly the states and edges on some path from the initial to the final state, in order, and raises ValueError if there is none; the interpreted and the compiled variant agree. '
     'Renumbering states through the bounded scratch table gives each state one number, keeps every path, its costs, decisions and info, and never depends on hash collisions.',
     ['inputs', 'histories'], 'every sequence of added edges, every graph, every hash function and scratch table size',
     'The tests build a few small graphs; collisions in the table, unreachable parts and invalid orders are rarely or never produced by them.',
     [GDF], [('partial_state_dag_add_edge', GDF), ('prune_to_reachable', GDF), ('prune_unreachable_and_rewrite_states', GDF), ('compute_reachable_states', GDF)])
prop('P20', 'Converting a state graph into arrays loses no edge and assigns correct levels',
     'Every path of the original graph becomes exactly one path of the packed graph that assigns the same variables to the same values at the same costs and assigns every other variable to no value, in variable order; every path of the packed graph assigns each variable once, in order. '
     'Each original edge is kept once with its cost and a reference to itself, and the only added edges are free ones between copies of one state that skip a variable. '
     'States and edges are numbered in an order that respects all edges, the edges deciding each variable are contiguous, and the boundaries, outgoing edge lists and key, value and state tables all describe the same edges.',
     ['inputs', 'configurations'], 'every graph and every variable order',
     'The packed form needs a compiler that is not available to the tests here; index bookkeeping has to agree for every graph shape.',
     [PDF], [('make_specialized_fn__convert_dag_to_packed', PDF)])
prop('P21', 'Shortest paths and min-marginals over packed graphs are computed correctly',
     'For every packed graph with at least one variable, and every table of penalties, the memoized prefix and suffix tables hold the cheapest penalized cost of reaching each state and of finishing from it, are recomputed exactly where a penalty change invalidated them, and are never read where invalid. '
     'The minimal cost, the min-marginals of one or all variables, the extracted cheapest path with its assignments, and the cheapest path consistent with given assignments follow from these tables, with the penalty of each decision counted once. '
     'Scaling multiplies every edge cost and nothing else.',
     ['inputs', 'histories'], 'every packed graph, penalty table and history of penalty changes and queries',
     'These routines need a compiler that is missing here, so no test runs them; stale memo entries only show up after particular sequences of updates.',
     [PDF], [('update_prefixes_up_to', PDF), ('update_suffixes_up_to', PDF), ('set_penalties', PDF), ('compute_min_marginals_for_variable', PDF), ('extract_minimal_cost_path_and_assignments', PDF), ('constrained_best_path', PDF)])
DSF = 'decision_diagrams/consistent_path_dual_solver.py'
prop('P22', 'The dual solver only moves costs between subproblems and reports honest bounds',
     'Building, cloning and constraining a system keeps its subproblems and the mapping of shared variables consistent: penalties moved between the subproblems that decide a variable are averaged so that their sum is unchanged, forbidden choices become infinitely costly everywhere they occur, and a clone shares no mutable state with its original. '
     'Aggregated min-marginals add the marginals of the subproblems that decide a variable and the minimal costs of all others; partial commitment forbids only choices whose bound exceeds the best bound by the stated gap, and greedy extraction assigns every variable its cheapest remaining value. '
     'Sweeps visit the variables forward and then in reverse, record every bound, step and time, and stop as soon as a full round improves nothing or the soft timeout has passed.',
     ['inputs', 'histories'], 'every system of packed graphs, every sequence of updates and every timing',
     'These routines need a compiler that is missing here, so no test runs them; mistakes shift costs silently and only weaken or falsify the reported bound.',
     [DSF], [('make_system', DSF), ('min_marginal_average', DSF), ('solve_system_with_sweeps', DSF), ('greedy_extract', DSF), ('partially_commit', DSF), ('constrain_system', DSF)])
CDF = 'edit_distance_utility/constraint_dags.py'
PSF = 'edit_distance_utility/part_selection_dags.py'
EDF = 'edit_distance_utility/edit_dags.py'
prop('P23', 'The constraint graph admits exactly the well-formed region annotations',
     'For every packed suggestion, the paths of the constraint graph are exactly the assignments of region decisions in which regions start outside and end inside a region, never nest, never cross the border of a group, and cover each token and group that lies inside them; a group inside a region is inside as a whole, and a group outside may hold regions of its own. '
     'Every path is free, decides each region start, region end, early exit and node membership it passes exactly once with the right value (including not applicable), and may leave early only at an early exit node. '
     'Spacing is passed in any state without a decision, and edges into a state are always added before edges out of it, so building never fails.',
     ['inputs'], 'every packed suggestion, any nesting',
     'The tests compare one drawn example; nested groups, regions touching group borders and early exits inside regions are not sampled.',
     [CDF], [('construct_constraint_dag', CDF), ('build_prototype_subgraph_from_outside_region', CDF), ('build_prototype_subgraph_inside_region', CDF)])
prop('P24', 'The selection graph scores exactly the ways to match selected parts in order',
     'For every suggestion and target, a path of the selection graph skips unselected parts of the suggestion for free, and between a region start and a region end either selects parts unmatched, paying the deletion cost of each token, or skips ahead in the target for free and then matches part by part. '
     'Tokens match only with equal text and type, groups only with equal type and only start to start and end to end; a match earns the utility of the token and advances both sides, everything else advances one side. '
     'Each start, end and membership decision passed is assigned once with the right value, the path may finish after the end of the suggestion wherever it is in the target, and runs of steps of one kind are reported with their tokens and total cost.',
     ['inputs', 'configurations'], 'every pair of packed sequences and every utility function',
     'The tests build one pair; what happens at region borders, past the end of the target and with equal text of different type is not sampled.',
     [PSF], [('make_selection_dag_builder', PSF), ('extract_match_groups', PSF)])
prop('P25', 'The edit graph prices exactly the ways to turn a suggestion into a target',
     'For every suggestion, target and parameter set, each path of the edit graph is one way to keep, delete and insert every token and group in order: kept tokens have equal text and type and earn their match utility, deletions and insertions cost their price, an edit starts with one start cost, deletions come before insertions, and whole groups are entered, deleted or inserted as a unit and left again at the same confidence. '
     'Each price is the parameter for the current confidence times the number of characters; starting a low confidence region costs once, and confidence changes only at a region start or end, inserted and deleted text included. '
     'Every decision of the suggestion passed on a path is assigned the value that agrees with its confidence, spacing is free and undecided, an early exit finishes at once, every edge tells which nodes it concerns and what it does, and building never fails.',
     ['inputs', 'configurations'], 'every pair of packed sequences and every parameter set',
     'A wrong edge changes the optimum only for some pairs; the tests check a few, mostly on the high confidence side.',
     [EDF], [('make_edit_dag_builder', EDF), ('token_node_utility_from_parameters', EDF)])
prop('P26', 'Edit scripts are reported completely and with their true cost',
     'For every path of an edit graph, neighbouring steps with the same action and confidence are reported as one group with all of their text, in order, and with the sum of their costs; no group with an action or a cost is lost, and the total is the cost of the path. '
     'Spacing of the suggestion joins what it follows (deleted after a deletion, otherwise kept), and spacing of the target is inserted unless it follows kept text. '
     'The text report, the marked-up report (with all content escaped and the classes of action and confidence) and the summary metrics (cost, characters and number of steps per action and confidence) show these groups.',
     ['inputs'], 'every path, suggestion and target',
     'Group boundaries depend on the whole sequence of actions, confidences and costs.',
     [EDF], [('_group_edit_sequence', EDF), ('extract_edit_sequence_text', EDF), ('extract_edit_sequence_html', EDF), ('extract_edit_summary_metrics', EDF)])
DRF = 'wrappers/demo_runner.py'
prop('P27', 'The runner turns strings into results that describe what it shows',
     'Combining parses context and sample together for the suggestion and every sample, in order, cuts each at the end of the context, and builds, solves and decodes one system over them; the reported utility and bound are the negated cost of the decoded assignment and the negated last dual bound, and an empty system gives undefined utilities and no assignment. '
     'Baselines are built from the joined model tokens, each with the solution information of its own assignment. '
     'What is shown (the suggestion, its parts joined per region state, the edits, the utility of each sample, the token probabilities with the context escaped) comes from that result, and an empty result only shows the message that says so.',
     ['inputs', 'configurations'], 'every wrapper, language, context, list of samples and prototype index',
     'No test runs the runner; mistakes such as another sample order or sign show only in what a user sees.',
     [DRF], [('DemoRunner.combine', DRF), ('DemoRunner.build_baselines', DRF), ('DemoRunner.get_extracted_parts', DRF), ('DemoRunner.show_token_probs', DRF)])
DSF_ = 'decision_diagrams/consistent_path_dual_solver.py'
na('P91', 'The dual solver reaches the best annotation when it says it converged',
   'Repeated sweeps raise the dual bound, and when the greedy assignment attains the bound that assignment is an optimal one. The gap that remains at the iteration limit is as small as the relaxation allows.',
   ['inputs', 'histories'], 'every system and number of sweeps',
   'Tests run a few small systems to convergence.',
   [DSF_], [('solve_system_with_sweeps', DSF_)],
   'How far the bound rises in a given number of sweeps is a quantity of the run (block-coordinate ascent may stall on ties); no sound static argument in reach bounds it. What each sweep computes is covered by P22.')
na('P92', 'Rounding never makes a reported bound wrong by more than the tolerance',
   'With floating-point costs, accumulated rounding of penalties and path costs keeps the dual value within the documented tolerance of the true bound.',
   ['inputs', 'histories'], 'every system with finite costs and any number of penalty updates',
   'Rounding depends on magnitudes and on the number of updates.',
   [DSF_, 'decision_diagrams/packed_dags.py'], [('system_min_marginals', DSF_), ('min_marginal_average', DSF_)],
   'Error growth depends on run-time magnitudes and the number of sweeps; the analysis reads floats as reals. A static error analysis would need bounds on the costs that no annotation or check in the code provides.')
na('P93', 'Annotating a suggestion stays within practical time and memory',
   'The number of states and edges of each utility graph grows at most with the product of suggestion and target length, and construction and one sweep take time proportional to it.',
   ['inputs'], 'every suggestion and set of samples',
   'Tests only measure small inputs.',
   ['edit_distance_utility/edit_dags.py', 'decision_diagrams/packed_dags.py'], [('make_edit_dag_builder', 'edit_distance_utility/edit_dags.py')],
   'A run-time quantity (and compiled code): a cost analysis of the loops, hash tables and recursion in reach of the available tools gives no sound bound.')
na('P94', 'Compiled and interpreted builders produce the same graphs',
   'With numba enabled every graph builder, packer and solver routine gives the same result as the same code interpreted by Python.',
   ['inputs', 'configurations'], 'every builder and input, with and without compilation',
   'Tests compile a few specialisations.',
   ['numba_helpers/numba_type_util.py', 'decision_diagrams/gated_state_dag.py'], [('with_numba', 'edit_distance_utility/edit_dags.py')],
   'The machine code is generated by numba at run time from inferred types; its semantics (integer width, typed containers, reflected lists) is not in this source. The Python text that is compiled, including the numba overloads, is covered by P19 to P25.')

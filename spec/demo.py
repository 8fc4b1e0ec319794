"""The interactive runner: from strings to results and their display."""
import html
import itertools
from typing import Any, Optional, Sequence, Union
import numpy as np
from IPython import display
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.tree_structure import token_prob_align
from r_u_sure.tree_structure import transforms
from r_u_sure.wrappers import demo_runner
from r_u_sure.wrappers import parser_tools
from r_u_sure.wrappers import wrapper_base
from r_u_sure.wrappers.demo_runner import BaselineResult, CombineResult, DemoRunner


def DemoRunner____init__(self: DemoRunner, wrapper: wrapper_base.HighLevelUtilityWrapper, language: str = 'python'):
  self.wrapper = wrapper
  self.parser_helper = parser_tools.ParserHelper(language=language)


def DemoRunner__combine(self: DemoRunner, context: str, samples: Sequence[str], prototype_index: int = 0):
  texts = [context + s for s in samples]
  at = len(context)
  prototype, context_info = self.wrapper.process_prototype_and_context(
      context_and_prototype=self.parser_helper.parse_to_nodes(texts[prototype_index]), prediction_location=at)
  targets = [self.wrapper.process_target(context_and_target=self.parser_helper.parse_to_nodes(t), prediction_location=at) for t in texts]
  system = self.wrapper.build_system(prototype=prototype, context_info=context_info, targets=targets)
  opt = solver.solve_system_with_sweeps(system_data=system.data, soft_timeout=10.0)
  if opt.objective_at_step.shape[0] == 0:
    return CombineResult(
        context_info=context_info, packed_prototype=prototype, packed_targets=targets, sample_system=system, opt_results=opt,
        utility_dual_bound=np.nan, solution_utility=np.nan, assignment_vector=None, assignment_map=None, solution_info=None)
  vector, cost = solver.greedy_extract(system.data, direction=solver.SweepDirection.FORWARD)
  assignments = solver.assignments_from_assignment_vector(system, vector)
  info = self.wrapper.solution_info(
      prototype=prototype, evaluation_target=None, context_info=context_info, system=None, sample_system=system, assignments=assignments)
  return CombineResult(
      context_info=context_info, packed_prototype=prototype, packed_targets=targets, sample_system=system, opt_results=opt,
      utility_dual_bound=-opt.objective_at_step[-1], solution_utility=-cost, assignment_vector=vector, assignment_map=assignments,
      solution_info=info)


def DemoRunner__build_baselines(self: DemoRunner, context: str, prototype_parts_with_log_probs: list[tuple[str, float]]):
  nodes = self.parser_helper.parse_to_nodes(context + ''.join(part for part, _ in prototype_parts_with_log_probs))
  prototype, context_info = self.wrapper.process_prototype_and_context(context_and_prototype=nodes, prediction_location=len(context))
  target = self.wrapper.process_target(context_and_target=nodes, prediction_location=len(context))
  baselines = self.wrapper.build_baseline_assignments(
      prototype=prototype, prototype_suggestion_as_target=target, context_info=context_info,
      model_tokens_and_log_probs=prototype_parts_with_log_probs)
  result = {}
  for name, assignments in baselines.items():
    result[name] = BaselineResult(
        context_info=context_info, packed_prototype=prototype, packed_prototype_as_target=target, assignment_map=assignments,
        solution_info=self.wrapper.solution_info(
            prototype=prototype, evaluation_target=None, context_info=context_info, system=None, sample_system=None, assignments=assignments))
  return result


def DemoRunner__show_suggestion(self: DemoRunner, result: Union[CombineResult, BaselineResult]):
  if result.assignment_map is None:
    print(demo_runner.EMPTY_RESULT_MESSAGE)
    return
  display.display(display.HTML(self.wrapper.render_solution_html(
      prototype=result.packed_prototype, context_info=result.context_info, assignments=result.assignment_map)))


def DemoRunner__get_extracted_parts(self: DemoRunner, result: Union[CombineResult, BaselineResult]):
  if result.solution_info is None or 'extracted_parts' not in result.solution_info:
    return None
  out = []
  for in_region, parts in itertools.groupby(result.solution_info['extracted_parts'], lambda v: v[1]):
    out.append((''.join(text for text, _ in parts), in_region))
  return out


def DemoRunner__show_edits(self: DemoRunner, combine_result: CombineResult):
  if combine_result.assignment_map is None:
    print(demo_runner.EMPTY_RESULT_MESSAGE)
    return
  display.display(display.HTML(self.wrapper.render_pairwise_matching_html(
      prototype=combine_result.packed_prototype, context_info=combine_result.context_info, targets=combine_result.packed_targets,
      system=combine_result.sample_system, assignments=combine_result.assignment_map)))


def DemoRunner__show_utilities(self: DemoRunner, combine_result: CombineResult):
  if combine_result.assignment_map is None:
    print(demo_runner.EMPTY_RESULT_MESSAGE)
    return
  for i, cost in enumerate(combine_result.solution_info['sample_system_costs_unsorted']):
    print(f'Target {i}: {np.round(-cost, decimals=6)}')


def DemoRunner__show_token_probs(self: DemoRunner, context: str, prototype_parts_with_log_probs: list[tuple[str, float]], parse_and_realign: bool):
  shown = prototype_parts_with_log_probs
  if parse_and_realign:
    nodes = self.parser_helper.parse_to_nodes(context + ''.join(part for part, _ in shown))
    packed = parser_tools.pack_sequence_from_pseudoparser(transforms.truncate_prefix_at_offset(nodes, len(context)), False)
    shown = token_prob_align.flatten_token_log_probs_from_parsed(packed, token_prob_align.align_token_log_probs(shown, packed))
  display.display(display.HTML(
      '<span style="white-space: pre; font-family: monospace;">' + html.escape(context) + '</span>' +
      token_prob_align.render_tokens_and_log_probs_to_html(shown)))

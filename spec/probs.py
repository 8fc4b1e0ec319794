"""Aligning model token probabilities with parsed tokens."""
import html
import math
from typing import Iterable
from r_u_sure.tree_structure import packed_sequence_nodes
from r_u_sure.tree_structure.packed_sequence_nodes import PackedSequenceNodeCategory as Category
from r_u_sure.tree_structure.packed_sequence_nodes import PackedSequenceNodeStorage
from r_u_sure.tree_structure.token_prob_align import SpanProbHelper


def SpanProbHelper__build(cls, tokens_and_log_probs: list[tuple[str, float]]) -> SpanProbHelper:
  return SpanProbHelper(token_and_log_prob_stack=tokens_and_log_probs[::-1])


def SpanProbHelper__advance_by_length(self: SpanProbHelper, span_length: int) -> tuple[str, float]:
  out = []
  total_log_prob = 0.0
  remaining_span_length = span_length
  while self.token_and_log_prob_stack:
    (token, log_prob) = self.token_and_log_prob_stack.pop()
    total_log_prob += log_prob
    if len(token) > remaining_span_length:
      out.append(token[:remaining_span_length])
      self.token_and_log_prob_stack.append((token[remaining_span_length:], log_prob))
      break
    out.append(token)
    remaining_span_length -= len(token)
    if remaining_span_length == 0:
      break
  return ''.join(out), total_log_prob


def SpanProbHelper__advance_and_get_log_prob_for(self: SpanProbHelper, external_token: str) -> float:
  token, log_prob = self.advance_by_length(len(external_token))
  if token == external_token:
    return log_prob
  raise ValueError('mismatch')


def SpanProbHelper__assert_consumed(self: SpanProbHelper) -> None:
  for token, _ in self.token_and_log_prob_stack:
    if token:
      raise ValueError('left over')


def align_token_log_probs(
    surface_tokens_and_log_probs: list[tuple[str, float]], parsed_sequence: PackedSequenceNodeStorage,
    must_consume_all_model_tokens: bool = False) -> dict[int, float]:
  helper = SpanProbHelper.build(surface_tokens_and_log_probs)
  result = {}
  for node_id in parsed_sequence.preorder_traversal:
    if node_id.category == Category.TEXT_TOKEN_NODE:
      text = parsed_sequence.text_token_nodes[node_id.index_in_category].text_contents
      result[node_id.preorder_index] = helper.advance_and_get_log_prob_for(text)
    elif node_id.category == Category.TEXT_DECORATION_NODE:
      helper.advance_and_get_log_prob_for(parsed_sequence.text_decoration_nodes[node_id.index_in_category].text_contents)
  if must_consume_all_model_tokens:
    helper.assert_consumed()
  return result


def flatten_token_log_probs_from_parsed(
    parsed_sequence: PackedSequenceNodeStorage, token_log_probs_by_preorder_index: dict[int, float]) -> Iterable[tuple[str, float]]:
  for node_id in parsed_sequence.preorder_traversal:
    if node_id.category == Category.TEXT_TOKEN_NODE:
      yield (parsed_sequence.text_token_nodes[node_id.index_in_category].text_contents,
             token_log_probs_by_preorder_index[node_id.preorder_index])
    elif node_id.category == Category.TEXT_DECORATION_NODE:
      yield parsed_sequence.text_decoration_nodes[node_id.index_in_category].text_contents, 0.0


def render_tokens_and_log_probs_to_html(surface_tokens_and_log_probs: list[tuple[str, float]]) -> str:
  parts = ['<span style="white-space: pre; font-family: monospace; font-weight: bold">']
  for token, log_prob in surface_tokens_and_log_probs:
    shade = math.exp(log_prob) * 100
    text = html.escape(token.replace('\n', '↩\n'))
    parts.append(f'<span style="background-color: rgb({1.0 * 100}%, {shade}%, {shade}%)">{text}</span>')
  parts.append('</span>')
  return ''.join(parts)

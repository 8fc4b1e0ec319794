"""Reading region decisions back into text."""
import html
from typing import Iterable
from r_u_sure.edit_distance_utility import region_decisions
from r_u_sure.edit_distance_utility.region_decisions import DecisionCategory, DecisionKey, DecisionValue, TokenWithRegionMembership
from r_u_sure.tree_structure.packed_sequence_nodes import PackedSequenceNodeCategory as Category
from r_u_sure.tree_structure.packed_sequence_nodes import PackedSequenceNodeStorage


def DecisionCategory__shortname(self: DecisionCategory) -> str:
  if self == DecisionCategory.REGION_SHOULD_START:
    return 'start'
  if self == DecisionCategory.REGION_SHOULD_END:
    return 'end'
  if self == DecisionCategory.NODE_IN_REGION:
    return 'in'
  if self == DecisionCategory.SHOULD_EARLY_EXIT:
    return 'exit'
  raise ValueError(self)


def DecisionValue__shortname(self: DecisionValue) -> str:
  if self == DecisionValue.TRUE:
    return 'true'
  if self == DecisionValue.FALSE:
    return 'false'
  if self == DecisionValue.NOT_APPLICABLE:
    return 'N/A'
  raise ValueError(self)


def extract_sequence_with_regions(
    prototype: PackedSequenceNodeStorage, assignments: dict[DecisionKey, DecisionValue],
    empty_region_marker: str = '') -> Iterable[TokenWithRegionMembership]:
  in_region = False
  empty_region = False
  for node_id in prototype.preorder_traversal:
    c = node_id.category
    if c == Category.GROUP_NODE:
      pass
    elif c == Category.TEXT_TOKEN_NODE:
      yield TokenWithRegionMembership(prototype.text_token_nodes[node_id.index_in_category].text_contents, in_region)
      empty_region = False
    elif c == Category.TEXT_DECORATION_NODE:
      yield TokenWithRegionMembership(prototype.text_decoration_nodes[node_id.index_in_category].text_contents, in_region)
      empty_region = False
    elif c == Category.EARLY_EXIT_NODE:
      if assignments[DecisionKey(node_id.preorder_index, DecisionCategory.SHOULD_EARLY_EXIT)] == DecisionValue.TRUE:
        break
    elif c == Category.REGION_START_NODE:
      if assignments[DecisionKey(node_id.preorder_index, DecisionCategory.REGION_SHOULD_START)] == DecisionValue.TRUE:
        in_region = True
        empty_region = True
    elif c == Category.REGION_END_NODE:
      if assignments[DecisionKey(node_id.preorder_index, DecisionCategory.REGION_SHOULD_END)] == DecisionValue.TRUE:
        assert in_region
        if empty_region:
          yield TokenWithRegionMembership(empty_region_marker, True)
        in_region = False
        empty_region = False
    else:
      raise ValueError(node_id)


def DecisionKey__summarize_assignment(self: DecisionKey, value) -> str:
  return f'{self.category.shortname()}: {value.shortname()}'


def render_regions_to_html(
    prototype: PackedSequenceNodeStorage, assignments: dict[DecisionKey, DecisionValue], region_text_color: str = 'darkorange',
    region_border_color: str = 'orange', region_background_color: str = 'yellow') -> str:
  parts = []
  parts.append(f"""<style>
        .regions_root {{
            white-space: pre;
            font-family: monospace;
            color: black;
            font-weight: bold;
        }}
        .regions_root .in_region {{
            color: {region_text_color};
            border: solid 1px {region_border_color};
            border-radius: 3px;
            background-color: {region_background_color};
        }}
      </style><span class="regions_root">""")
  was_in_region = False
  for item in region_decisions.extract_sequence_with_regions(prototype, assignments, empty_region_marker='︙'):
    if item.in_annotated_region and not was_in_region:
      parts.append('<span class="in_region">')
    if not item.in_annotated_region and was_in_region:
      parts.append('</span>')
    parts.append(html.escape(item.token_or_decoration))
    was_in_region = item.in_annotated_region
  if was_in_region:
    parts.append('</span>')
  parts.append('</span>')
  return ''.join(parts)

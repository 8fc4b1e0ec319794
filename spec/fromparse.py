"""Pseudo-parse tree -> nested sequence."""
from typing import AbstractSet, List
from r_u_sure.parsing import subtokenizer
from r_u_sure.parsing import sequence_from_pseudo_parse as fp
from r_u_sure.parsing.pseudo_parser import stack_parser
from r_u_sure.tree_structure import sequence_nodes as sn


def pseudo_parse_node_to_nested_sequence_node(
    root: stack_parser.Node, tokens: List[str], token_types: List[stack_parser.TokenType],
    decoration_node_types: AbstractSet[stack_parser.NodeType] = frozenset({stack_parser.NodeType.WHITE_SPACE_LEAF}),
    subtokenize_node_types: AbstractSet[stack_parser.NodeType] = frozenset({stack_parser.NodeType.STRING_LITERAL}),
) -> sn.SequenceNode:
  ty = root.type(tokens, token_types)
  text = root.text(tokens)
  if ty in decoration_node_types:
    return sn.TextDecorationNode(text_contents=text)
  if ty in subtokenize_node_types:
    return sn.GroupNode(children=fp.subtokenize_token(text), match_type=ty.name)
  if len(root.children) == 0:
    return sn.TextTokenNode(text_contents=text, match_type=ty.name)
  if [root.lo] + [c.hi for c in root.children] != [c.lo for c in root.children] + [root.hi]:
    raise ValueError('children do not tile the node')
  kids = []
  for c in root.children:
    kids.append(fp.pseudo_parse_node_to_nested_sequence_node(
        c, tokens, token_types, decoration_node_types, subtokenize_node_types))
  return sn.GroupNode(children=kids, match_type=ty.name)


def subtokenize_token(token: str) -> List[sn.SequenceNode]:
  return [sn.TextTokenNode(text_contents=s, match_type='subtoken')
          for s in subtokenizer.code_to_tokens_simple_lossless(token)]

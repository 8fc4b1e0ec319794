"""Subtoken splitting of one string."""
from typing import List
from r_u_sure.parsing.subtokenizer import StateType as S


def _kind(c: str) -> S:
  if c.isupper():
    return S.UPPERCASE_STATE
  if c.islower():
    return S.LOWERCASE_STATE
  if c.isdigit():
    return S.NUMBER_STATE
  return S.SPECIAL_STATE


def code_to_tokens_simple_lossless(code: str) -> List[str]:
  out = []
  cur = []
  last = S.INITIAL_STATE
  for i, c in enumerate(code):
    k = _kind(c)
    if last == S.UPPERCASE_STATE and k == S.LOWERCASE_STATE:
      if len(cur) > 1:
        out.append(''.join(cur[:-1]))
        cur = [cur[-1]]
    elif last == S.SPECIAL_STATE and k == S.SPECIAL_STATE:
      if c == code[i - 1] and (c == ' ' or c == '\t'):
        if len(cur) >= 20:
          out.append(''.join(cur))
          cur = []
      elif c.isspace() or code[i - 1].isspace():
        out.append(''.join(cur))
        cur = []
    elif last != S.INITIAL_STATE and last != k:
      out.append(''.join(cur))
      cur = []
    cur.append(c)
    last = k
  if cur:
    out.append(''.join(cur))
  return out

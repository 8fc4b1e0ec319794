"""Paths into nested sequences, and the size each node contributes to utility."""
from r_u_sure.tree_structure import sequence_nodes as sn


def NestedNodePath__extended_with(self: sn.NestedNodePath, index: int) -> sn.NestedNodePath:
  return sn.NestedNodePath(path=self.path + (index,))


def NestedNodePath__root(cls) -> sn.NestedNodePath:
  return sn.NestedNodePath(path=())


def TextDecorationNode__size_for_utility(self: sn.TextDecorationNode) -> float:
  return len(self.text_contents)


def TextTokenNode__size_for_utility(self: sn.TextTokenNode) -> float:
  return len(self.text_contents)


def GroupNode__size_for_utility(self: sn.GroupNode) -> float:
  return 0.0

"""What must be true of module-level constants."""
from r_u_sure.edit_distance_utility import constraint_dags as cd
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.edit_distance_utility import part_selection_dags as ps
from r_u_sure.tree_structure import packed_sequence_nodes as psn


def preorder_markers():
  """The two markers are no index of a group, and differ."""
  return psn.ROOT_SEQUENCE_PREORDER_INDEX < 0 and psn.NO_PREORDER_INDEX < 0 and psn.ROOT_SEQUENCE_PREORDER_INDEX != psn.NO_PREORDER_INDEX


def edit_final():
  return ed.FINAL_STATE.alignment == ed.EditDagStateAlignment.SPECIAL_FINAL_STATE


def constraint_final():
  return cd.FINAL_STATE.category == cd.ConstraintDagStateCategory.SPECIAL_FINAL_STATE


def selection_final():
  return ps.FINAL_STATE.category == ps.DagStateCategory.SPECIAL_FINAL_STATE

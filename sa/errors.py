class Abort(Exception):
  """The analysis of this function gave up (obligation becomes undecided)."""

SPECIFICATION Spec
CONSTANTS
  R = 1
  L = 3
  Starts = "all"
INVARIANTS OnCells Returns
CHECK_DEADLOCK FALSE

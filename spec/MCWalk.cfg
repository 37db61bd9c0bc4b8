SPECIFICATION Spec
CONSTANTS
  R = 1
  L = 2
  Starts = "pents"
INVARIANTS OnCells Returns
PROPERTIES Gets
CHECK_DEADLOCK FALSE

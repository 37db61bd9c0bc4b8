SPECIFICATION Spec
CONSTANTS
  T = 24
  Turns = 6
INVARIANTS Same InRange Kept
PROPERTIES Ends
CHECK_DEADLOCK FALSE

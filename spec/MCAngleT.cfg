SPECIFICATION Spec
CONSTANTS
  T = 360
  Turns = 10
INVARIANTS Same InRange Kept
PROPERTIES Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Both = {1, 2}
  Work <- WorkSetT
INVARIANT Own
PROPERTY Ends
CHECK_DEADLOCK FALSE

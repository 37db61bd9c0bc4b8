SPECIFICATION Spec
CONSTANTS
  Both = {1, 2}
  Work <- WorkSet
INVARIANT Own
PROPERTY Ends
CHECK_DEADLOCK FALSE

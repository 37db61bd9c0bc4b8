SPECIFICATION Spec
CONSTANTS
  MaxRes = 2
INVARIANTS InWave Census
CHECK_DEADLOCK FALSE

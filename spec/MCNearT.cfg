SPECIFICATION Spec
CONSTANTS
  MaxRes = 4
INVARIANTS InWave Census
CHECK_DEADLOCK FALSE

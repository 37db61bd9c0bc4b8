SPECIFICATION Spec
CONSTANTS
  Bases = {4, 15}
  Rs = {1, 2}
  Deviations = 3
INVARIANTS Word ValidExactly EdgeExactly RoundTrip NotBoth Deleted
PROPERTIES Writes
CHECK_DEADLOCK FALSE

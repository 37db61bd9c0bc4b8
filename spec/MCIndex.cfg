SPECIFICATION Spec
CONSTANTS
  Bases = {0, 4}
  Rs = {0, 2, 15}
  Deviations = 2
INVARIANTS Word ValidExactly EdgeExactly RoundTrip NotBoth Deleted
PROPERTIES Writes
CHECK_DEADLOCK FALSE

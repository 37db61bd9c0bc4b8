SPECIFICATION Spec
CONSTANTS
  R = 1
  K = 3
  Algs = {"search"}
  Everywhere = FALSE
INVARIANTS Right Bounded
PROPERTIES Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  R = 2
  K = 5
  Algs = {"spiral", "ring"}
  Everywhere = TRUE
INVARIANTS Right Bounded Nearest
CHECK_DEADLOCK FALSE

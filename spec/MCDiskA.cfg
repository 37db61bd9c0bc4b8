SPECIFICATION Spec
CONSTANTS
  R = 1
  K = 3
  Algs = {"spiral", "ring"}
  Everywhere = TRUE
INVARIANTS Right Bounded Nearest
CHECK_DEADLOCK FALSE

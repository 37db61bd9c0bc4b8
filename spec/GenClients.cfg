SPECIFICATION Spec
CONSTANT Length = 60
INVARIANTS Allowed Pooled
CHECK_DEADLOCK FALSE

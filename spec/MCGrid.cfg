SPECIFICATION Spec
CONSTANT R = 1
INVARIANTS MovesOk Valid Degree InsideP Geometry Symmetric
POSTCONDITION Complete
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT R = 3
INVARIANTS MovesOk Valid Degree InsideP Geometry Symmetric
POSTCONDITION Complete
CHECK_DEADLOCK FALSE

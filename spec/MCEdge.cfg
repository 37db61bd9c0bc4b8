SPECIFICATION Spec
CONSTANT R = 1
INVARIANTS Valid Codec Distinct OneEach Headed
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
